CORRUPT = '''
def damaged(f, kind, n=0):
    """the file f written, with the first byte of the n-th object of a kind damaged; and the ids of all"""
    data = bytearray(open(save(f), 'rb').read())
    g = avb.AVBFile(io.BytesIO(bytes(data)))
    ids = [i for i in range(1, len(g.object_positions)) if g.read_chunk(i).class_id == kind]
    data[g.read_chunk(ids[n]).pos] = 0x7f
    return bytes(data), ids[n]
'''
S('reading-stuck', 'C07', 'pure', 'an object that can not be read, then an edit of one that is only loaded for it',
  'after a damaged object was refused the file stays in its reading state: edits are not kept',
  [('file.py', "                object_instance.instance_id = index\n                return object_instance\n", "                object_instance.instance_id = index\n                self.reading = False\n                return object_instance\n"),
   ('file.py', "                raise\n            finally:\n                self.reading = False\n", "                raise\n")],
CORRUPT + '''
f = avb.AVBFile()
mob = f.create.Composition()
f.content.add_mob(mob)
seq = f.create.Sequence()
t = f.create.Track()
t.index = 1
t.component = seq
mob.tracks.append(t)
for i in range(4):
    c = f.create.Filler()
    c.length = 10
    seq.components.append(c)
data, bad = damaged(f, b'FILL', 3)
g = avb.AVBFile(io.BytesIO(data))
s = g.content.items[0].mob.tracks[0].component
held = s.components[1]
out, sys.stdout = sys.stdout, io.StringIO()
try:
    s.components[3]
    ok = True
except Exception:
    ok = False
sys.stdout = out
expect(ok, False, 'damaged object')
held.length = 77
del held
gc.collect()
expect(s.components[1].length, 77, 'edit after a refused object')
''')
S('cache-before-read', 'C05', 'pure', 'the object asked for again while the first refusal is being handled',
  'an object enters the cache before it has been read: asking for a damaged one again returns what there is of it',
  [('file.py', "                reader = self.fast_readers.get(class_id, None)\n", "                # may be referred to by the objects it contains\n                self.object_cache[index] = object_instance\n                object_instance.instance_id = index\n                reader = self.fast_readers.get(class_id, None)\n"),
   ('file.py', "                self.object_cache[index] = object_instance\n                object_instance.instance_id = index\n                return object_instance\n", "                return object_instance\n")],
CORRUPT + '''
f = avb.AVBFile()
mob = f.create.Composition()
f.content.add_mob(mob)
data = open(save(f), 'rb').read()
g = avb.AVBFile(io.BytesIO(data))
i = [i for i in range(1, len(g.object_positions)) if g.read_chunk(i).class_id == b'CMPO'][0]
c = g.read_chunk(i)
bad = bytearray(data)
bad[c.pos + c.size - 1] = 0x55
g = avb.AVBFile(io.BytesIO(bytes(bad)))
out, sys.stdout = sys.stdout, io.StringIO()
try:
    try:
        g.read_object(i)
    except Exception as e:
        try:
            g.read_object(i)
        except Exception:
            pass
        else:
            raise SystemExit('the damaged object was handed out')
    else:
        raise SystemExit('not refused')
finally:
    sys.stdout = out
''')
S('large-bin-sticky', 'C09', 'pure', 'a bin of more than 65535 items that is saved',
  'saving a bin of many items sets its large_bin, in memory as well',
  [('bin.py', "        object_count = len(self.items)\n        #large bin size > max u16\n        if self.large_bin or object_count > 0xffff:\n            ctx.write_u8(f,  0x0f)\n", "        object_count = len(self.items)\n        #large bin size > max u16\n        if object_count > 0xffff:\n            self.large_bin = True\n        if self.large_bin:\n            ctx.write_u8(f,  0x0f)\n")],
'''
f = avb.AVBFile()
mob = f.create.Composition()
for i in range(65536):
    f.content.add_mob(mob)
expect(f.content.large_bin, False)
save(f)
expect(f.content.large_bin, False, 'large_bin after saving')
''')
S('lock-default', 'C09', 'pure', 'a track without a lock number in a group that is saved',
  'saving gives the tracks of the group in memory the lock number that is written for them',
  [('trackgroups.py', "                else:\n                    ctx.write_s16(f, 0)\n", "                else:\n                    self.tracks[i].lock_number = 0\n                    ctx.write_s16(f, self.tracks[i].lock_number)\n")],
'''
f = avb.AVBFile()
mob = f.create.Composition()
f.content.add_mob(mob)
t = f.create.Track()
t.index = 1
t.component = f.create.Filler()
mob.tracks.append(t)
before = dict(t.property_data)
save(f)
expect(sorted(t.property_data), sorted(before), 'properties of the track after saving')
''')
S('edits-dropped', 'C09', 'pure', 'an edit of an object nobody holds, a save, a collection, another save',
  'a save forgets which objects were changed: the next one has their old content',
  [('file.py', "        self.next_chunk_id = 0\n        self.ref_mapping = {}\n        ctx = AVBIOContext(byte_order)\n", "        # what is written now needs not be kept, only what changes from here on\n        kept, self.modified_objects = self.modified_objects, {}\n        self.next_chunk_id, self.ref_mapping = 0, {}\n        ctx = AVBIOContext(byte_order)\n")],
'''
f = avb.AVBFile()
mob = f.create.Composition()
f.content.add_mob(mob)
mob.name = u'old'
p = save(f, 'in.avb')
g = avb.AVBFile(p)
g.content.items[0].mob.name = u'new'
save(g, 'one.avb')
gc.collect()
save(g, 'two.avb')
g.close()
h = avb.AVBFile(path('two.avb'))
expect(h.content.items[0].mob.name, u'new', 'name in the second file')
''')
S('eqband-swap', 'C02', 'pure', 'an equalizer whose bands have a gain and a q that differ',
  'gain and q of the equalizer bands are read and written in each others place',
  [('trackgroups.py', "            band.gain = ctx.read_s32(f)\n            band.q = ctx.read_s32(f)\n", "            band.q = ctx.read_s32(f)\n            band.gain = ctx.read_s32(f)\n"),
   ('trackgroups.py', "            ctx.write_s32(f, band.gain)\n            ctx.write_s32(f, band.q)\n", "            ctx.write_s32(f, band.q)\n            ctx.write_s32(f, band.gain)\n")],
'''
sys.path.insert(0, 'tests')
f = avb.AVBFile()
e = f.create.EqualizerMultiBand()
e.left_length = e.right_length = e.info_version = e.info_current = e.info_smooth = e.info_color_item = e.info_quality = e.info_is_reversed = 0
e.info_aspect_on = e.info_force_software = e.info_never_hardware = e.effect_enable = False
e.keyframes = None
e.filter_name = u''
b = f.create.EqualizerBand()
b.type, b.freq, b.gain, b.q, b.enable = 0x11111111, 0x22222222, 0x33333333, 0x44444444, True
e.bands = [b]
f.content.view_setting.attributes[u'eq'] = e
g = reopen(f)
data = [c for c in g.chunks() if c.class_id == b'EQMB'][0].read()
if struct.pack('<4i', 0x11111111, 0x22222222, 0x33333333, 0x44444444) not in data:
    raise SystemExit('bands are not stored as type, freq, gain, q')
''')
S('mpgp-fields', 'C02', 'pure', 'an mpeg position with leading fields',
  'picture type and length of the leading fields are read and written as length and picture type',
  [('misc.py', "                picture_type = ctx.read_u8(f)\n                length = ctx.read_u32(f)\n", "                length = ctx.read_u32(f)\n                picture_type = ctx.read_u8(f)\n"),
   ('misc.py', "                ctx.write_u8(f, picture_type)\n                ctx.write_u32(f, length)\n", "                ctx.write_u32(f, length)\n                ctx.write_u8(f, picture_type)\n")],
'''
f = avb.AVBFile()
p = f.create.MPGPosition()
for d in p.propertydefs:
    if not hasattr(p, d.name):
        setattr(p, d.name, None if d.type == 'reference' else avb.mobid.MobID() if d.type == 'MobID' else 0)
p.need_seq_hdr = True
p.fields = [[0x12, 0x55667788]]
f.content.view_setting.attributes[u'p'] = p
g = reopen(f)
data = [c for c in g.chunks() if c.class_id == b'MPGP'][0].read()
if struct.pack('<BI', 0x12, 0x55667788) not in data:
    raise SystemExit('a field is not stored as type and length')
''')
S('be-marker', 'C03', 'pure', 'a file written with the big byte order, looked at by another program',
  'the header of a big endian file says it is Intel',
  [('file.py', "        if ctx.byte_order == 'little':\n            ctx.write_u32(f, 0x49494949)\n        else:\n            ctx.write_u32(f, 0x4D4D4D4D)\n", "        ctx.write_u32(f, 0x49494949)\n")],
'''
f = avb.AVBFile()
save(f, 'out.avb', 'big')
data = open(path(), 'rb').read()
i = data.index(b'ATob')
if b'MMMM' not in data[:i] or b'IIII' in data[:i]:
    raise SystemExit('byte order mark of a big endian file: %r' % data[:i])
''')
S('last-save-12h', 'C08', 'pure', 'a file saved with a time in the afternoon',
  'the date in the header has the hour of a 12 hour clock',
  [('file.py', "strftime(u'%Y/%m/%d %H:%M:%S')", "strftime(u'%Y/%m/%d %I:%M:%S')")],
'''
f = avb.AVBFile()
f.last_save = datetime.datetime(2021, 3, 4, 15, 16, 17)
save(f)
data = open(path(), 'rb').read()
if b'2021/03/04 15:16:17' not in data[:200]:
    raise SystemExit('date in the header: %r' % data[:80])
''')
S('compmob-usage', 'C16', 'pure', 'a composition with a usage code',
  'compositionmobs leaves out the compositions that have a usage code',
  [('bin.py', "    def compositionmobs(self):\n        for mob in self.mobs:\n            if  mob.mob_type in ('CompositionMob', ):\n                yield mob\n", "    def compositionmobs(self):\n        for mob in self.mobs:\n            if  mob.mob_type in ('CompositionMob', ) and mob.usage_code in (0, 1, 2, 3, 5, 6, 7, 9):\n                yield mob\n")],
'''
f = avb.AVBFile()
mob = f.create.Composition(u'a', 'CompositionMob')
mob.usage_code = 4
f.content.add_mob(mob)
expect([m.mob_id for m in f.content.compositionmobs()], [mob.mob_id], 'compositions')
''')
S('interp-unknown', 'C20', 'pure', 'a curve of a kind that is not known',
  'the interpolation of an unknown kind is said to be linear, and evaluated that way',
  [('components.py', "        return INTERPOLATION_MAP.get(self.interp_kind, 'unknown')\n", "        return INTERPOLATION_MAP.get(self.interp_kind, 'LinearInterp' if self.interp_kind > 6 else 'unknown')\n")],
'''
f = avb.AVBFile()
p = f.create.ParamClip()
p.interp_kind = 9
expect(p.interp, 'unknown', 'interpolation of kind 9')
''')
S('pp-type-name', 'C20', 'pure', 'a point property with a type that is not known',
  'the type of a point property that is neither int nor double is named reference',
  [('components.py', "    @property\n    def type_name(self):\n        if self.type == CP_TYPE_INT:\n            return 'int'\n        elif self.type == CP_TYPE_DOUBLE:\n            return 'double'\n        elif self.type == CP_TYPE_REFERENCE:\n            return 'reference'\n        else:\n            return 'unknown'\n", "    @property\n    def type_name(self):\n        if self.type == CP_TYPE_INT:\n            return 'int'\n        elif self.type == CP_TYPE_DOUBLE:\n            return 'double'\n        elif self.type & CP_TYPE_REFERENCE:\n            return 'reference'\n        else:\n            return 'unknown'\n")],
'''
f = avb.AVBFile()
p = f.create.ParamControlPointProperty()
p.type = 5
expect(p.type_name, 'unknown', 'name of type 5')
p.type = 4
expect(p.type_name, 'reference', 'name of type 4')
''')
S('reflist-parent', 'C07', 'pure', 'a list method that changes the list of an object nobody holds',
  'reversing or sorting a list of references does not count as an edit of its owner',
  [('core.py', "    def mark_modified(self):\n        if not self.root.reading:\n            if not hasattr(self, 'class_id'):\n                if self.parent:\n                    self.root.add_modified(self.parent)\n", "    def mark_modified(self):\n        if not self.root.reading:\n            if not hasattr(self, 'class_id'):\n                if self.parent and len(self) != self.parent.get('count', len(self)):\n                    self.root.add_modified(self.parent)\n")],
'''
f = avb.AVBFile()
mob = f.create.Composition()
f.content.add_mob(mob)
seq = f.create.Sequence()
t = f.create.Track()
t.index = 1
t.component = seq
mob.tracks.append(t)
for i in range(4):
    c = f.create.Filler()
    c.length = 10 + i
    seq.components.append(c)
g = reopen(f)
g.content.items[0].mob.tracks[0].component.components.reverse()
gc.collect()
expect([c.length for c in g.content.items[0].mob.tracks[0].component.components], [13, 12, 11, 10], 'lengths')
''')
S('pop-shift', 'C13', 'pure', 'pop of a middle entry, asked for by a negative index',
  'pop with a negative index other than -1 takes the entry from the front',
  [('core.py', "        result = self.deref(super(AVBRefList, self).pop(i))\n", "        result = self.deref(super(AVBRefList, self).pop(i if i >= -1 else abs(i) - 1))\n")],
'''
f = avb.AVBFile()
seq = f.create.Sequence()
mob = f.create.Composition()
f.content.add_mob(mob)
t = f.create.Track()
t.index = 1
t.component = seq
mob.tracks.append(t)
for i in range(5):
    c = f.create.Filler()
    c.length = i
    seq.components.append(c)
g = reopen(f)
l = g.content.items[0].mob.tracks[0].component.components
expect(l.pop(-2).length, 3, 'pop(-2)')
expect([c.length for c in l], [0, 1, 2, 4], 'what is left')
''')
S('insert-end', 'C13', 'pure', 'insert with a negative position',
  'insert with a negative position puts the entry behind the one it should come before',
  [('core.py', "        super(AVBRefList, self).insert(i, x)\n        self.mark_modified()\n", "        super(AVBRefList, self).insert(i if i >= 0 else max(0, len(self) + 1 + i), x)\n        self.mark_modified()\n")],
'''
f = avb.AVBFile()
seq = f.create.Sequence()
mob = f.create.Composition()
f.content.add_mob(mob)
t = f.create.Track()
t.index = 1
t.component = seq
mob.tracks.append(t)
for i in range(3):
    c = f.create.Filler()
    c.length = i
    seq.components.append(c)
g = reopen(f)
l = g.content.items[0].mob.tracks[0].component.components
c = g.create.Filler()
c.length = 9
l.insert(-1, c)
expect([c.length for c in l], [0, 1, 9, 2], 'after insert(-1)')
''')
S('ref-keeps', 'C12', 'pure', 'an object that was used and let go, and a collection',
  'a reference keeps the object it was resolved to for as long as it exists',
  [('utils.py', "    __slots__ = ('root', 'index')\n    def __init__(self, root, index):\n        self.root = root\n        self.index = index\n", "    __slots__ = ('root', 'index', 'kind')\n    def __init__(self, root, index):\n        self.root = root\n        self.index = index\n        self.kind = None\n"),
   ('utils.py', "        return self.root.read_object(self.index)\n", "        if self.kind is None:\n            self.kind = self.root.read_object(self.index)\n        return self.kind\n")],
'''
import weakref
f = avb.AVBFile()
mob = f.create.Composition()
f.content.add_mob(mob)
g = reopen(f)
r = weakref.ref(g.content.items[0].mob)
gc.collect()
gc.collect()
if r() is not None:
    raise SystemExit('an object that nobody uses is kept')
''')
S('copy-empty-list', 'C10', 'pure', 'a copy of a sequence without components, and its list changed',
  'the empty reference list of a copy is that of the original',
  [('core.py', "    def copy(self, root, parent=None):\n        obj = root.create.from_name(self.__class__.__name__)\n", "    def copy(self, root, parent=None):\n        obj = root.create.from_name(self.__class__.__name__) if len(self) else self\n")],
'''
f = avb.AVBFile()
mob = f.create.Composition()
f.content.add_mob(mob)
seq = f.create.Sequence()
t = f.create.Track()
t.index = 1
t.component = seq
mob.tracks.append(t)
g = reopen(f)
s = g.content.items[0].mob.tracks[0].component
h = avb.AVBFile()
k = s.copy(h)
x = h.create.Filler()
k.components.append(x)
expect(len(s.components), 0, 'components of the original')
''')
S('reverse-words', 'C03', 'pure', 'a raw uuid in a big endian file',
  'raw uuids are stored little endian in every file',
  [('ioctx.py', "    def read_raw_uuid(self, f):\n        if self.byte_order == 'little':\n            return UUID(bytes_le=f.read(16))\n        else:\n            return UUID(bytes=f.read(16))\n", "    def read_raw_uuid(self, f):\n        return UUID(bytes_le=f.read(16))\n"),
   ('ioctx.py', "    def write_raw_uuid(self, f, value):\n        if self.byte_order == 'little':\n            f.write(value.bytes_le)\n        else:\n            f.write(value.bytes)\n", "    def write_raw_uuid(self, f, value):\n        f.write(value.bytes_le)\n")],
'''
u = uuid.UUID('00112233-4455-6677-8899-aabbccddeeff')
f = io.BytesIO()
avb.ioctx.AVBIOContext('big').write_raw_uuid(f, u)
expect(f.getvalue(), u.bytes, 'raw uuid, big endian')
''')
S('toplevel-none', 'C16', 'pure', 'a clip whose source mob was added to the bin after a mob that has no id',
  'a clip with a length of zero has no mob',
  [('components.py', "            mob_id = self.mob_id\n            if mob_id:\n                return", "            mob_id = self.mob_id\n            if mob_id and self.length:\n                return")],
'''
f = avb.AVBFile()
mob = f.create.Composition()
f.content.add_mob(mob)
c = f.create.SourceClip()
c.mob_id = mob.mob_id
c.length = 0
expect(c.mob is mob, True, 'mob of a clip of length 0')
''')
S('swap-lo-hi', 'C01', 'pure', 'a bin reference with a negative half of the uid',
  'the halves of the uid of a bin reference lose their sign',
  [('misc.py', "        self.uid_high = ctx.read_s32(f)\n        self.uid_low = ctx.read_s32(f)\n        self.name = ctx.read_string(f)\n", "        self.uid_high = ctx.read_s32(f)\n        self.uid_low = ctx.read_u32(f)\n        self.name = ctx.read_string(f)\n"),
   ('misc.py', "        ctx.write_s32(f, self.uid_low)\n        ctx.write_string(f, self.name)\n", "        ctx.write_u32(f, self.uid_low & 0xffffffff)\n        ctx.write_string(f, self.name)\n")],
'''
f = avb.AVBFile()
b = f.create.BinRef()
b.uid_high, b.uid_low, b.name = 5, -7, u'x'
f.content.attributes[u'b'] = b
g = reopen(f)
expect(g.content.attributes[u'b'].uid_low, -7, 'uid_low')
''')
S('tz-naive', 'C14', 'pure', 'a mob with a time before 1970 or of 2040',
  'times are stored as signed numbers',
  [('ioctx.py', "        return datetime.fromtimestamp(self.read_u32(f))\n", "        return datetime.fromtimestamp(self.read_s32(f))\n")],
'''
f = avb.AVBFile()
mob = f.create.Composition()
f.content.add_mob(mob)
mob.creation_time = datetime.datetime(2050, 6, 1, 12, 0, 0)
g = reopen(f, 'big')
expect(g.content.items[0].mob.creation_time, datetime.datetime(2050, 6, 1, 12, 0, 0), 'creation time')
''')
