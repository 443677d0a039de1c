# state kept where none may be, and the native reader on unusual but valid data
BOTH = '''
import traceback
def both(data):
    """what an object's data is read as by the native and by the pure reader"""
    out = []
    for ext in (True, False):
        o, sys.stdout = sys.stdout, io.StringIO()
        try:
            f = avb.AVBFile(io.BytesIO(data), use_ext=ext)
            m = f.content.items[0].mob
            out.append(sorted((k, str(v)) for k, v in m.property_data.items() if k not in ('attributes', 'session_attrs', 'precomputed', 'tracks', 'descriptor', 'param_list')))
        except Exception as e:
            out.append('refused')
        finally:
            sys.stdout = o
    return out
def chunk_of(data, kind):
    f = avb.AVBFile(io.BytesIO(data), use_ext=False)
    for c in f.chunks():
        if c.class_id == kind:
            return c.pos, c.size
'''
S('save-stamp', 'C09', 'pure', 'a date set by the program, then a write',
  'every write sets the date of the last save to now',
  [('file.py', "        self.next_chunk_id = 0\n        self.ref_mapping = {}\n        ctx = AVBIOContext(byte_order)\n", "        self.update_save_time()\n        self.next_chunk_id, self.ref_mapping = 0, {}\n        ctx = AVBIOContext(byte_order)\n")],
'''
f = avb.AVBFile()
f.last_save = datetime.datetime(2001, 2, 3, 4, 5, 6)
save(f)
expect(f.last_save, datetime.datetime(2001, 2, 3, 4, 5, 6), 'date after a write')
''')
S('null-id-shared', 'C11', 'pure', 'the id of a new source clip edited in place',
  'new source clips share one null mob id',
  [('components.py', "        super(SourceClip, self).__init__(edit_rate=edit_rate, media_kind=media_kind)\n        self.mob_id = mobid.MobID()\n", "        super(SourceClip, self).__init__(edit_rate=edit_rate, media_kind=media_kind)\n        self.mob_id = NULL_MOB_ID\n"),
   ('components.py', "@utils.register_class\nclass SourceClip(Clip):\n", "NULL_MOB_ID = mobid.MobID()\n\n@utils.register_class\nclass SourceClip(Clip):\n")],
'''
f = avb.AVBFile()
a, b = f.create.SourceClip(), f.create.SourceClip()
a.mob_id.Data1 = 5
expect(b.mob_id.Data1, 0, 'id of another clip')
''')
S('string-cache', 'C14', 'pure', 'the same bytes as Mac Roman text and as UTF-8 text in one file',
  'decoded strings are remembered by their bytes alone, whatever their encoding',
  [('ioctx.py', "        s = s.strip(b'\\x00')\n        return s.decode(encoding)\n", "        s = s.strip(b'\\x00')\n        if s not in decoded_strings:\n            decoded_strings[s] = s.decode(encoding)\n        return decoded_strings[s]\n"),
   ('ioctx.py', "exp10_pretty = {\n", "decoded_strings = {}\n\nexp10_pretty = {\n")],
'''
f = avb.AVBFile()
l = f.create.MacFileLocator()
l.path = u'\\u00c3\\u00a9'
l.path = u'\\u00e9'.encode('utf-8').decode('macroman')
l.path_utf8 = u'\\u00e9'
f.content.attributes[u'l'] = l
g = reopen(f, ext=False)
expect((g.content.attributes[u'l'].path, g.content.attributes[u'l'].path_utf8), (l.path, l.path_utf8), 'paths')
''')
S('ext-twice', 'C04', 'ext', 'an object with one optional field stored twice',
  'the native reader takes the first of two mob ids, the pure one the last',
  [('_ext_core.cpp', "    p->mob_ids.push_back(mob_id);\n", "    if (p->mob_ids.empty())\n        p->mob_ids.push_back(mob_id);\n")],
BOTH + '''
f = avb.AVBFile()
m = f.create.Composition()
m.mob_id = avb.mobid.MobID.new()
f.content.add_mob(m)
data = bytearray(open(save(f), 'rb').read())
pos, size = chunk_of(bytes(data), b'CMPO')
ident = data[pos + size - 1 - 59:pos + size - 1]
second = bytearray(ident)
i = bytes(ident).rfind(b'\\x01\\x02A')
ident = ident[i:]
second = bytearray(ident)
second[-1] ^= 0xff
data[pos + size - 1:pos + size - 1] = second
data[pos - 4:pos] = struct.pack('<I', size + len(second))
a, b = both(bytes(data))
expect(a, b, 'native and pure reader')
''')
S('ext-neg-rate', 'C04', 'ext', 'a component with a negative rate',
  'the native reader takes the digits of a rate as unsigned',
  [('_ext_core.cpp', "    int32_t mantissa = (int32_t)read_u32le(f);\n", "    uint32_t mantissa = read_u32le(f);\n")],
BOTH + '''
f = avb.AVBFile()
m = f.create.Composition()
m.edit_rate = -25
f.content.add_mob(m)
a, b = both(open(save(f), 'rb').read())
expect(a, b, 'native and pure reader')
''')
S('ext-label-12', 'C05', 'ext', 'a mob id with a damaged label length',
  'the native reader does not look at the length of the label of a mob id',
  [('_ext_core.cpp', "    if(smpte_label_len != 12) {\n", "    if(smpte_label_len < 12) {\n")],
BOTH + '''
f = avb.AVBFile()
m = f.create.Composition()
m.mob_id = avb.mobid.MobID.new()
f.content.add_mob(m)
data = bytearray(open(save(f), 'rb').read())
pos, size = chunk_of(bytes(data), b'CMPO')
i = bytes(data).rfind(b'\\x01\\x02A', pos, pos + size)
data[i + 3] = 13
expect(both(bytes(data)), ['refused', 'refused'], 'damaged mob id')
''')
S('ext-date-sign', 'C04', 'ext', 'a mob modified after 2038',
  'the native reader takes dates as signed',
  [('_ext_core.cpp', "    add_date(p, \"last_modified\", read_u32le(f));\n", "    add_date(p, \"last_modified\", (int32_t)read_u32le(f));\n")],
BOTH + '''
f = avb.AVBFile()
m = f.create.Composition()
m.last_modified = datetime.datetime(2050, 1, 2, 3, 4, 5)
f.content.add_mob(m)
a, b = both(open(save(f), 'rb').read())
expect(a, b, 'native and pure reader')
''')
S('id-time', 'C15', 'pure', 'two ids made within one tick of the clock',
  'new mob ids are made from the time',
  [('mobid.py', "  m.material = uuid.uuid4() #", "  m.material = uuid.uuid5(uuid.NAMESPACE_OID, str('%.2f' % time.time())) #"),
   ('mobid.py', "import struct\n", "import struct\nimport time\n")],
'''
ids = [avb.mobid.MobID.new() for i in range(2000)]
expect(len(set(ids)), 2000, 'different ids')
''')
S('big-bin-u32', 'C01', 'pure', 'a bin of more than 65535 entries',
  'a bin with 65535 entries is stored with the long count, a longer one is not marked so',
  [('bin.py', "        if self.large_bin or object_count > 0xffff:\n            ctx.write_u8(f,  0x0f)\n        else:\n            ctx.write_u8(f,  0x0e)\n", "        large_bin = object_count > 0xffff or (self.large_bin and object_count > 0)\n        ctx.write_u8(f, 0x0f if large_bin else 0x0e)\n"),
   ('bin.py', "        #large bin size > max u16\n        if self.large_bin or object_count > 0xffff:\n            ctx.write_u32(f, object_count)\n", "        #large bin size > max u16\n        if large_bin:\n            ctx.write_u32(f, object_count)\n")],
'''
f = avb.AVBFile()
f.content.large_bin = True
expect(reopen(f, ext=False).content.large_bin, True, 'large_bin of an empty bin')
''')
S('attr-int-bool', 'C01', 'pure', 'an attribute outside the range of 32 bits',
  'integer attributes out of range are stored cut to 32 bits',
  [('attributes.py', "                ctx.write_s32(f, value)\n", "                ctx.write_u32(f, value & 0xFFFFFFFF)\n")],
'''
f = avb.AVBFile()
f.content.attributes[u'a'] = 1 << 40
refused(lambda: save(f), 'an integer that does not fit')
''')
S('clear-unmarked', 'C07', 'pure', 'a list emptied entry by entry from the front, of an object that is not kept',
  'removing an entry does not mark a list that is empty afterwards',
  [('core.py', "    def __delitem__(self, index):\n        super(AVBRefList, self).__delitem__(index)\n        self.mark_modified()\n", "    def __delitem__(self, index):\n        super(AVBRefList, self).__delitem__(index)\n        if self:\n            self.mark_modified()\n")],
'''
f = avb.AVBFile()
p = f.create.ParameterList()
f.content.attributes[u'list'] = p
p.append(f.create.Attributes())
g = reopen(f, ext=False)
del g.content.attributes[u'list'][0]
gc.collect()
expect(len(g.content.attributes[u'list']), 0, 'entries')
''')
S('parent-truth', 'C07', 'pure', 'a list of a loaded object set to a list with its own parent',
  'a list of references taken out of its object is still marked under the old one',
  [('core.py', "                if self.parent:\n                    self.root.add_modified(self.parent)\n", "                if self.parent and len(self):\n                    self.root.add_modified(self.parent)\n")],
'''
f = avb.AVBFile()
s = f.create.Sequence(media_kind='picture')
s.components.append(f.create.Filler(media_kind='picture'))
f.content.attributes[u's'] = s
g = reopen(f, ext=False)
g.content.attributes[u's'].components.pop()
gc.collect()
expect(len(g.content.attributes[u's'].components), 0, 'components')
''')
S('equal-merged', 'C12', 'pure', 'two objects of a file with the same data, both held',
  'decoded objects are remembered by their bytes: two objects with the same data become one',
  [('file.py', "                    object_instance.read(r)\n                    # print(len(r.read()))\n                    assert len(r.read()) == 0\n                self.object_cache[index] = object_instance\n", "                    object_instance.read(r)\n                    assert len(r.read()) == 0\n                    object_instance = self.same_objects.setdefault((class_id, bytes(data)), object_instance)\n                self.object_cache[index] = object_instance\n"),
   ('file.py', "        self.fast_readers = {}\n", "        self.fast_readers, self.same_objects = {}, WeakValueDictionary()\n")],
'''
f = avb.AVBFile()
for k in u'ab':
    f.content.attributes[k] = f.create.ParameterList()
g = reopen(f, ext=False)
a, b = g.content.attributes[u'a'], g.content.attributes[u'b']
expect(a is b, False, 'two lists are one')
''')
