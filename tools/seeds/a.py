# core / file / ioctx
S('cache-falsy', 'C12', 'pure', 'an empty attribute map or parameter list of a loaded file, looked at twice while it is alive',
  'an object that is an empty container is falsy and is read again at every access, so two paths give different objects',
  [('file.py', "        if object_instance is not None:\n            return object_instance", "        if object_instance:\n            return object_instance")],
'''
f = avb.AVBFile()
mob = f.create.Composition(mob_type='MasterMob')
mob.attributes = f.create.Attributes()
f.content.add_mob(mob)
g = reopen(f)
m = list(g.content.mobs)[0]
a = m.attributes
if a is not m.attributes:
    raise SystemExit('two objects for one attribute map')
''')
S('id-collision', 'C11', 'pure', 'creating an object in a loaded file and keeping the last loaded object of the file alive',
  'the first object created in a loaded file gets the number of the last stored object',
  [('file.py', "        self.next_object_id = len(self.object_positions)\n", "        self.next_object_id = num_objects - 1\n")],
'''
f = avb.AVBFile(SAMPLE)
a = f.create.Attributes()
ids = [f.read_object(i).instance_id for i in range(1, len(f.object_positions))]
if a.instance_id in ids:
    raise SystemExit('instance id %d used twice' % a.instance_id)
''')
S('ref-off-by-one', 'C05', 'pure', 'a reference one past the last object of the file',
  'a reference just past the object table is accepted when the object is read',
  [('utils.py', "        if self.index >= len(self.root.object_positions):", "        if self.index > len(self.root.object_positions):")],
'''
f = avb.AVBFile()
mob = f.create.Composition(mob_type='MasterMob')
f.content.add_mob(mob)
data = bytearray(open(save(f), 'rb').read())
g = avb.AVBFile(io.BytesIO(data))
chunks = list(g.chunks())
for i, c in enumerate(chunks):
    if c.class_id == b'CMPO':
        pos = c.pos + 2
        struct.pack_into('<I', data, pos, len(chunks))
        h = avb.AVBFile(io.BytesIO(data))
        sys.stdout = io.StringIO()
        refused(lambda: h.read_object(i), 'reference past the end')
        sys.stdout = sys.__stdout__
''')
S('strip-space', 'C14', 'pure', 'a string with a line end at its end or start',
  'reading a string takes off line ends together with the padding',
  [('ioctx.py', "        s = s.strip(b'\\x00')\n", "        s = s.strip(b'\\x00\\r\\n')\n")],
'''
ctx = avb.ioctx.AVBIOContext('little')
b = io.BytesIO()
ctx.write_string(b, u'name\\n')
b.seek(0)
expect(ctx.read_string(b), u'name\\n')
''')
S('utf8-size', 'C14', 'pure', 'an utf-8 string with characters of more than one byte',
  'the stored size of a utf-8 string counts characters instead of bytes',
  [('ioctx.py', "        data = s.encode(encoding)\n        if encoding == 'utf-8':\n            data = b'\\x00\\x00' + data\n\n        size = len(data)\n",
    "        data = s.encode(encoding)\n        size = len(s)\n        if encoding == 'utf-8':\n            data = b'\\x00\\x00' + data\n            size += 2\n\n")],
'''
ctx = avb.ioctx.AVBIOContext('little')
b = io.BytesIO()
ctx.write_string(b, u'caf\\xe9', 'utf-8')
b.seek(0)
expect(ctx.read_string(b, 'utf-8'), u'caf\\xe9')
''')
S('utc-date', 'C14', 'pure', 'a time zone other than UTC',
  'dates are read as UTC and written as local time, so each save moves them by the offset of the time zone',
  [('ioctx.py', "        return datetime.fromtimestamp(self.read_u32(f))", "        return datetime.utcfromtimestamp(self.read_u32(f))")],
'''
os.environ['TZ'] = 'Asia/Tokyo'
time.tzset()
ctx = avb.ioctx.AVBIOContext('little')
b = io.BytesIO()
d = datetime.datetime(2015, 3, 4, 5, 6, 7)
ctx.write_datetime(b, d)
b.seek(0)
expect(ctx.read_datetime(b), d)
''')
S('big-uuid', 'C03', 'pure', 'a big endian file holding an object with a raw uuid',
  'raw uuids of big endian files are read and written in little endian order',
  [('ioctx.py', "            return UUID(bytes_le=f.read(16))\n        else:\n            return UUID(bytes=f.read(16))", "            return UUID(bytes_le=f.read(16))\n        else:\n            return UUID(bytes_le=f.read(16))"),
   ('ioctx.py', "            f.write(value.bytes_le)\n        else:\n            f.write(value.bytes)\n", "            f.write(value.bytes_le)\n        else:\n            f.write(value.bytes_le)\n")],
'''
ctx = avb.ioctx.AVBIOContext('big')
u = uuid.UUID('00112233-4455-6677-8899-aabbccddeeff')
b = io.BytesIO()
ctx.write_raw_uuid(b, u)
expect(b.getvalue(), u.bytes, 'big endian uuid')
''')
S('attr-copy-alias', 'C10', 'pure', 'a byte array in an attribute map, changed in place after copying',
  'the copy of an attribute map shares its byte arrays with the original',
  [('attributes.py', "                obj[key] = value[:]\n", "                obj[key] = value\n")],
'''
f = avb.AVBFile()
a = f.create.Attributes()
a['b'] = bytearray(b'abc')
c = a.copy(f)
a['b'][0] = 0
expect(c['b'], bytearray(b'abc'))
''')
S('pop-default', 'C13', 'pure', 'pop of the first entry by its index 0',
  'pop(0) of a reference list takes the last entry',
  [('core.py', "        result = self.deref(super(AVBRefList, self).pop(i))", "        result = self.deref(super(AVBRefList, self).pop(i or -1))")],
'''
f = avb.AVBFile()
p = f.create.ParameterList()
a, b = f.create.Attributes(), f.create.Attributes()
p.append(a)
p.append(b)
if p.pop(0) is not a:
    raise SystemExit('pop(0) gave another entry')
''')
S('deref-int', 'C13', 'ext', 'iterating a list the native reader filled, in an order other than by index',
  'a list filled by the native reader gives a null entry as a placeholder when it is looked at by index',
  [('core.py', "        if isinstance(value, INT_FORMAT):\n            return utils.AVBObjectRef(self.root, value).value", "        if isinstance(value, INT_FORMAT) and value:\n            return utils.AVBObjectRef(self.root, value).value")],
'''
f = avb.AVBFile()
mob = f.create.Composition(mob_type='MasterMob')
t = f.create.Track()
t.index = 1
t.component = f.create.Sequence(media_kind='picture')
t.component.components = avb.core.AVBRefList.__new__(avb.core.AVBRefList, root=f, parent=t.component)
t.component.components.append(None)
mob.tracks.append(t)
f.content.add_mob(mob)
g = reopen(f)
expect(list(list(g.content.mobs)[0].tracks[0].component.components), [None], 'null entry')
''')
S('chunk-hex', 'C19', 'pure', 'the data of a chunk read while another chunk was taken in between, or twice',
  'the data of a chunk is read from the current position of the file when nothing was read yet',
  [('file.py', "        self.root.f.seek(self.pos)\n        return self.root.f.read(self.size)", "        if self.root.f.tell() < self.pos or self.root.f.tell() > self.pos + self.size:\n            self.root.f.seek(self.pos)\n        return self.root.f.read(self.size)")],
'''
f = avb.AVBFile(SAMPLE)
c = list(f.chunks())[5]
a = c.read()
expect(len(a), c.size, 'chunk data')
expect(c.read(), a, 'chunk data read twice')
''')
