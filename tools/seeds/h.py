# results kept too long, state of the native reader, containers that are empty, and parts that are only reached one way
S('seq-cached', 'C17', 'pure', 'a lookup, then a component that gets another length, then a lookup',
  'the positions of a sequence are kept until its number of components changes',
  [('components.py', "        for index, position, component in self.positions():\n\n            # skip zero", "        for index, position, component in cached_positions(self):\n\n            # skip zero"),
   ('components.py', "@utils.register_class\nclass Sequence(Component):\n", "position_cache = WeakKeyDictionary()\n\ndef cached_positions(sequence):\n    key = len(sequence.components)\n    found = position_cache.get(sequence)\n    if not found or found[0] != key:\n        found = position_cache[sequence] = (key, list(sequence.positions()))\n    return found[1]\n\n@utils.register_class\nclass Sequence(Component):\n"),
   ('components.py', "from . import core\n", "from weakref import WeakKeyDictionary\nfrom . import core\n")],
'''
f = avb.AVBFile()
s = f.create.Sequence(media_kind='picture')
for i in range(3):
    c = f.create.Filler(media_kind='picture')
    c.length = 10
    s.components.append(c)
s.nearest_index_at_time(12)
s.components[0].length = 30
expect(s.nearest_index_at_time(12), (0, 0), 'component at 12')
''')
S('hash-cached', 'C15', 'pure', 'an id whose hash was taken and which then is changed in place',
  'the hash of an id is kept when its parts change',
  [('mobid.py', "        return hash(bytes(self.bytes_le))\n", "        if not hasattr(self, '_hash'):\n            self._hash = hash(bytes(self.bytes_le))\n        return self._hash\n"),
   ('mobid.py', "    __slots__ = ('bytes_le')\n", "    __slots__ = ('bytes_le', '_hash')\n")],
'''
a = avb.mobid.MobID.new()
hash(a)
a.Data1 = 5
expect(hash(a), hash(avb.mobid.MobID(bytes_le=a.bytes_le)), 'hash')
''')
S('ext-scratch', 'C21', 'ext', 'two files read in two threads by the native reader',
  'the native reader collects binary data in one buffer for all threads',
  [('_ext_core.cpp', "    for(size_t i =0; i < size; i++) {\n        s[i] = read_u8(f);\n    }\n    return 0;\n}\n\nstatic inline int read_data16", "    static std::vector<uint8_t> scratch;\n    scratch.clear();\n    for(size_t i =0; i < size; i++)\n        scratch.push_back(read_u8(f));\n    for(size_t i =0; i < size && i < scratch.size(); i++)\n        s[i] = scratch[i];\n    return 0;\n}\n\nstatic inline int read_data16")],
'''
import threading
paths = []
for c in (1, 2):
    f = avb.AVBFile()
    f.content.attributes[u'blob'] = bytearray([c]) * 3000000
    paths.append(save(f, '%d.avb' % c))
bad = []
def run(p, c):
    for i in range(60):
        with avb.open(p) as f:
            if f.content.attributes[u'blob'] != bytearray([c]) * 3000000:
                bad.append(p)
ts = [threading.Thread(target=run, args=a) for a in zip(paths, (1, 2))]
[t.start() for t in ts]; [t.join() for t in ts]
expect(bad, [], 'files read wrong')
''')
S('track-empty', 'C01', 'pure', 'a track with an empty attribute map',
  'the attributes of a track are only stored when there are any',
  [('trackgroups.py', "        if 'attributes' in self.property_data:\n            flags |= TRACK_ATTRIBUTES_FLAG\n", "        if 'attributes' in self.property_data and self.property_data.get('attributes'):\n            flags |= TRACK_ATTRIBUTES_FLAG\n")],
'''
f = avb.AVBFile()
m = f.create.Composition()
f.content.add_mob(m)
t = f.create.Track()
t.attributes = f.create.Attributes()
t.component = f.create.Filler(media_kind='picture')
m.tracks.append(t)
got = reopen(f, ext=False).content.items[0].mob.tracks[0]
expect(hasattr(got, 'attributes'), True, 'attributes')
''')
S('lock-all', 'C01', 'pure', 'lock numbers of which only a later one is not zero',
  'the lock numbers are left out when the first track has none',
  [('trackgroups.py', "        if self.tracks:\n            ctx.write_u8(f, 0x01)\n            ctx.write_u8(f, 0x01)\n\n            for i in range(len(self.tracks)):\n                ctx.write_u8(f, 69)\n", "        if self.tracks and hasattr(self.tracks[0], 'lock_number'):\n            ctx.write_u8(f, 0x01)\n            ctx.write_u8(f, 0x01)\n\n            for i in range(len(self.tracks)):\n                ctx.write_u8(f, 69)\n")],
'''
f = avb.AVBFile()
m = f.create.Composition()
f.content.add_mob(m)
for i in range(2):
    t = f.create.Track()
    t.index = i
    t.component = f.create.Filler(media_kind='picture')
    m.tracks.append(t)
m.tracks[1].lock_number = 4
got = reopen(f, ext=False).content.items[0].mob.tracks[1]
expect(getattr(got, 'lock_number', None), 4, 'lock number')
''')
S('chunk-cursor', 'C19', 'pure', 'listing chunks while other objects are read in between',
  'listing chunks goes on from where the stream stands',
  [('file.py', "        for i in range(len(self.object_positions)):\n            yield self.read_chunk(i)\n", "        yield self.read_chunk(0)\n        if len(self.object_positions) > 1:\n            self.f.seek(self.object_positions[1])\n        for i in range(len(self.object_positions) - 1):\n            chunk = read_chunk(self, self.f)\n            yield chunk\n            if self.f.tell() != chunk.pos + chunk.size:\n                self.f.seek(chunk.size, os.SEEK_CUR)\n")],
'''
f = avb.AVBFile()
f.content.attributes[u'b'] = bytearray(b'x' * 100)
for i in range(5):
    f.content.add_mob(f.create.Composition())
g = reopen(f, ext=False)
want = [(c.class_id, c.pos) for c in g.chunks()]
got = []
for c in g.chunks():
    got.append((c.class_id, c.pos))
    g.read_chunk(2)
    if len(got) > 50:
        break
expect(got, want, 'chunks')
''')
S('value-int-mix', 'C18', 'pure', 'a linear curve between integer points, at a time between them',
  'a linear curve between two integer points takes an integer value',
  [('components.py', "            v0 = float(p1.value)\n            v1 = float(p2.value)\n", "            v0, v1 = p1.value, p2.value\n            if isinstance(v0, int) and isinstance(v1, int) and abs(v1 - v0) == 1:\n                return float(v0)\n            v0, v1 = float(v0), float(v1)\n")],
'''
f = avb.AVBFile()
c = f.create.ParamClip()
c.interp_kind = 3
c.value_type = 1
pts = []
for t, v in ((0, 0), (10, 1)):
    p = f.create.ParamControlPoint()
    p.offset = [t, 1]; p.timescale = 1; p.value = v; p.pp = []
    pts.append(p)
c.control_points = pts
expect(c.value_at(5), 0.5, 'value at 5')
''')
S('create-cached', 'C11', 'pure', 'many objects created and dropped, more than are kept',
  'the number of a new object is the number of live objects',
  [('file.py', "            self.root.next_object_id += 1\n            obj.instance_id = self.root.next_object_id\n", "            self.root.next_object_id = (self.root.next_object_id + 1) & 0xffff or 1\n            obj.instance_id = self.root.next_object_id\n")],
'''
f = avb.AVBFile()
first = f.content.instance_id
ids = set()
for i in range(70000):
    x = f.create.Attributes()
    if x.instance_id in ids or x.instance_id == first:
        expect(i, 'no number given twice', 'object %d' % i)
    ids.add(x.instance_id)
''')
