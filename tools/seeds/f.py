# values at the edges, aliases and edits that look like none
ONE = '''
def bin_of(*mobs):
    f = avb.AVBFile()
    for m in mobs:
        f.content.add_mob(m(f))
    return f
def seq_of(f, *lengths):
    s = f.create.Sequence(media_kind='picture')
    for n in lengths:
        c = f.create.Filler(media_kind='picture')
        c.length = n
        s.components.append(c)
    return s
'''
S('attr-long-bob', 'C01', 'pure', 'binary data of more than 64 kB in an attribute',
  'binary data in an attribute is cut to what a 16 bit length can say',
  [('attributes.py', "                ctx.write_u32(f, len(value))\n                f.write(value)\n", "                ctx.write_u32(f, len(value[:0xFFFF]))\n                f.write(value[:0xFFFF])\n")],
'''
f = avb.AVBFile()
data = bytearray(os.urandom(70001))
f.content.attributes[u'data'] = data
expect(reopen(f, ext=False).content.attributes[u'data'] == data, True, 'binary data')
''')
S('append-none', 'C07', 'pure', 'an empty entry appended to a list that is not kept alive',
  'appending an empty entry is not taken as an edit',
  [('core.py', "        super(AVBRefList, self).append(x)\n        self.mark_modified()\n", "        super(AVBRefList, self).append(x)\n        if x is not None:\n            self.mark_modified()\n")],
ONE + '''
f = avb.AVBFile()
p = f.create.ParameterList()
f.content.attributes[u'list'] = p
p.append(f.create.Attributes())
g = reopen(f, ext=False)
g.content.attributes[u'list'].append(None)
gc.collect()
expect(len(g.content.attributes[u'list']), 2, 'entries')
''')
S('set-equal', 'C07', 'pure', 'an attribute set to another object that equals the one it has, which is then edited',
  'setting an attribute to a value that equals the old one does nothing: edits of the new value are lost',
  [('core.py', "        if pdef:\n            self.property_data[name] = value\n            self.mark_modified()\n            return\n", "        if pdef:\n            if self.property_data.get(name, sentinel) != value:\n                self.property_data[name] = value\n                self.mark_modified()\n            return\n")],
'''
f = avb.AVBFile()
a = f.create.Attributes()
f.content.attributes = a
a[u'one'] = 1
expect(dict(reopen(f, ext=False).content.attributes.items()), {u'one': 1}, 'attributes')
''')
S('iter-snapshot', 'C13', 'pure', 'a list that changes while it is iterated over',
  'iterating over a reference list goes over a snapshot: entries added meanwhile are not seen',
  [('core.py', "        for value in super(AVBRefList, self).__iter__():\n            yield self.deref(value)\n", "        for value in list(super(AVBRefList, self).__iter__()):\n            yield self.deref(value)\n")],
ONE + '''
f = avb.AVBFile()
p = f.create.ParameterList()
for i in range(3):
    p.append(f.create.Attributes())
n = 0
for x in p:
    n += 1
    if n == 2:
        p.append(f.create.Attributes())
expect(n, 4, 'entries seen')
n = 0
for x in p:
    n += 1
    p.pop()
expect(n, 2, 'entries seen')
''')
S('nul-inside', 'C14', 'pure', 'a string with a NUL character inside',
  'a string ends at the first NUL inside it',
  [('ioctx.py', "        s = s.strip(b'\\x00')\n", "        s = s.strip(b'\\x00').split(b'\\x00')[0]\n")],
'''
f = avb.AVBFile()
f.content.attributes[u'a'] = u'one\\0two'
expect(reopen(f, ext=False).content.attributes[u'a'], u'one\\0two', 'string')
''')
S('id-alias', 'C15', 'pure', 'an id made from the bytes of another one, edited afterwards',
  'an id made from a bytearray keeps this bytearray: editing one id changes the other',
  [('mobid.py', "        if bytes_le:\n            self.bytes_le = bytearray(bytes_le)\n", "        if bytes_le:\n            if not isinstance(bytes_le, bytearray):\n                bytes_le = bytearray(bytes_le)\n            self.bytes_le = bytes_le\n")],
'''
a = avb.mobid.MobID.new()
b = avb.mobid.MobID(bytes_le=a.bytes_le)
expect(a == b, True, 'same id')
b.Data1 = (b.Data1 + 1) & 0xffffffff
expect(a == b, False, 'same id after one was edited')
''')
S('chunk-64k', 'C19', 'pure', 'an object of more than 64 kB',
  'the data of a chunk is read in one piece of at most 64 kB',
  [('file.py', "        return self.root.f.read(self.size)\n", "        return self.root.f.read(min(self.size, io.DEFAULT_BUFFER_SIZE * 8))\n")],
'''
f = avb.AVBFile()
f.content.attributes[u'data'] = bytearray(70001)
g = reopen(f)
for c in list(g.chunks()):
    expect(len(c.read()), c.size, 'data of the chunk')
''')
S('zero-skip', 'C17', 'pure', 'a source clip of length zero in a sequence',
  'only filler of length zero is skipped when the component at a time is looked for',
  [('components.py', "            if component.length == 0:\n                continue\n", "            if component.class_id == b'FILL' and component.length == 0:\n                continue\n")],
ONE + '''
f = avb.AVBFile()
s = seq_of(f, 10)
c = f.create.SourceClip(media_kind='picture')
c.length = 0
s.components.append(c)
expect(s.nearest_index_at_time(20), (0, 0), 'component at 20')
c = f.create.Filler(media_kind='picture')
c.length = 5
s.components.insert(0, f.create.SourceClip(media_kind='picture'))
expect(s.nearest_index_at_time(3), (1, 0), 'component at 3')
expect(s.nearest_index_at_time(-3), (1, 0), 'component at -3')
''')
S('rate-23976', 'C14', 'pure', 'a rate of 23.98',
  'the rate 23.98 is stored as 23.976',
  [('ioctx.py', "exp10_pretty = {\n5994: (59940, -3),\n", "exp10_pretty = {\n2398: (23976, -3), 5994: (59940, -3),\n")],
'''
f = avb.AVBFile()
m = f.create.Composition()
m.edit_rate = 23.98
f.content.add_mob(m)
expect(reopen(f, ext=False).content.items[0].mob.edit_rate, 23.98, 'rate')
''')
S('get-default', 'C20', 'pure', 'a property that is there but null, asked for with a default',
  'get gives the default for a property that is null',
  [('core.py', "        for property_key, value in self.property_data.items():\n            if property_key == key:\n                return value\n        return default\n", "        for property_key, value in self.property_data.items():\n            if property_key == key and value is not None:\n                return value\n        return default\n")],
'''
f = avb.AVBFile()
m = f.create.Composition()
m.descriptor = None
expect(m.get('descriptor', 'default'), None, 'null property')
expect(m.get('nothing', 'default'), 'default', 'missing property')
''')
S('bin-kind', 'C16', 'pure', 'an entry of the bin whose mob was replaced by another one with the same id',
  'the bin compares the ids only, and keeps giving the mob that was replaced',
  [('components.py', "                return self.root.content.find_by_mob_id(self.mob_id)\n", "                bin = self.root.content\n                mob = bin._mob_dict.get(mob_id, (0, None))[1]\n                if mob is not None and mob.mob_id == mob_id:\n                    return mob\n                return bin.find_by_mob_id(mob_id)\n")],
'''
f = avb.AVBFile()
m = f.create.Composition()
m.mob_id = avb.mobid.MobID.new()
f.content.add_mob(m)
c = f.create.SourceClip()
c.mob_id = avb.mobid.MobID(bytes_le=m.mob_id.bytes_le)
expect(c.mob is m, True, 'mob')
del f.content.items[0]
expect(c.mob, None, 'mob that was removed')
''')
S('urn-upper', 'C15', 'pure', 'a urn in upper case with its prefix',
  'the prefix of a urn is only known in lower case',
  [('mobid.py', "        s = str(value).lower()\n        for item in (\"urn:smpte:umid:\", \".\", '-', '0x'):\n            s = s.replace(item, '')\n", "        s = str(value)\n        for item in (\"urn:smpte:umid:\", \".\", '-', '0x'):\n            s = s.replace(item, '')\n")],
'''
a = avb.mobid.MobID.new()
b = avb.mobid.MobID(str(a).upper())
expect(a == b, True, 'id of the urn in upper case')
''')
S('id-order', 'C15', 'pure', 'two ids that differ in their second half only, in byte order',
  'ids are ordered by their little endian number',
  [('mobid.py', "            return self.int < other.int\n", "            return self.bytes_le[::-1] < other.bytes_le[::-1]\n")],
'''
a, b = avb.mobid.MobID(int=1 << 200), avb.mobid.MobID(int=3)
expect((b < a, a < b, b <= a, a > b), (True, False, True, True), 'order')
''')
S('header-order', 'C19', 'pure', 'a chunk of a big endian file as hex',
  'the kind of a chunk is reversed once more in a big endian file',
  [('file.py', "            class_id = class_id[::-1]\n        else:\n            class_id, size = struct.unpack(b\">4sI\", f.read(8))\n\n        pos = f.tell()\n", "        else:\n            class_id, size = struct.unpack(b\">4sI\", f.read(8))\n\n        class_id = class_id[::-1]\n        pos = f.tell()\n")],
'''
f = avb.AVBFile()
g = reopen(f, 'big')
expect(b'ABIN' in [c.class_id for c in g.chunks()], True, 'kinds')
''')
S('save-micro', 'C14', 'pure', 'a date in the future beyond 2038',
  'a date is stored as a signed number',
  [('ioctx.py', "        self.write_u32(f, self.datetime_to_timestamp(value))\n", "        self.write_u32(f, self.datetime_to_timestamp(value) & 0x7FFFFFFF)\n")],
'''
f = avb.AVBFile()
f.last_save = datetime.datetime(2055, 5, 5, 5, 5, 5)
expect(reopen(f, ext=False).last_save, datetime.datetime(2055, 5, 5, 5, 5, 5), 'date')
''')
S('neg-start', 'C02', 'pure', 'a source clip with a negative track id',
  'the track id of a source clip is decoded without sign',
  [('components.py', "        self.track_id = ctx.read_s16(f)\n        self.start_time = ctx.read_s32(f)\n\n        for tag in ctx.iter_ext(f):\n            if tag == 0x01:\n                self.mob_id = ctx.read_mob_id(f)\n", "        self.track_id = ctx.read_u16(f)\n        self.start_time = ctx.read_s32(f)\n\n        for tag in ctx.iter_ext(f):\n            if tag == 0x01:\n                self.mob_id = ctx.read_mob_id(f)\n")],
'''
f = avb.AVBFile()
m = f.create.Composition()
f.content.add_mob(m)
t = f.create.Track()
t.index = 1
t.component = c = f.create.SourceClip()
m.tracks.append(t)
c.track_id = -1
expect(reopen(f, ext=False).content.items[0].mob.tracks[0].component.track_id, -1, 'track')
''')
