# core, attributes, files
S('attr-copy-order', 'C10', 'pure', 'an attribute map whose keys are not in alphabetical order, copied',
  'copying an attribute map sorts its keys',
  [('attributes.py', "        obj = root.create.from_name(self.__class__.__name__)\n        for key, value in self.items():", "        obj = root.create.from_name(self.__class__.__name__)\n        for key, value in sorted(self.items(), key=lambda item: item[0]):")],
'''
f = avb.AVBFile()
a = f.create.Attributes()
a['b'] = 1
a['a'] = 2
expect(list(a.copy(f)), ['b', 'a'], 'keys of the copy')
''')
S('attr-del-last', 'C07', 'pure', 'the last entry of a loaded attribute map removed while the program keeps no reference to the map',
  'deleting the last entry of an attribute map is not noted as an edit and is undone by garbage collection',
  [('attributes.py', "        super(Attributes, self).__delitem__(key)\n        self.mark_modified()", "        super(Attributes, self).__delitem__(key)\n        if self:\n            self.mark_modified()")],
'''
f = avb.AVBFile()
mob = f.create.Composition(mob_type='MasterMob')
mob.attributes['a'] = 1
f.content.add_mob(mob)
g = reopen(f)
del list(g.content.mobs)[0].attributes['a']
gc.collect()
expect(len(list(g.content.mobs)[0].attributes), 0, 'attributes after removing the last one')
''')
S('long-version', 'C08', 'pure', 'a creator version of more than 30 characters',
  'a long creator version pushes the objects away from where readers expect them',
  [('file.py', "        v = v[:30]\n        ctx.write_u16(f, 30)\n", "        v = v[:32]\n        ctx.write_u16(f, max(30, len(v)))\n")],
'''
f = avb.AVBFile()
f.creator_version = u'x' * 40
data = open(save(f), 'rb').read()
f.creator_version = u'x' * 5
short = open(save(f), 'rb').read()
expect(len(data), len(short), 'length of a file with a long version')
''')
S('trailing-junk', 'C05', 'pure', 'an object stored larger than its content, read without the extension',
  'an object with additional bytes that begin with an end mark is accepted',
  [('file.py', "                    assert len(r.read()) == 0\n", "                    assert r.read(1) in (b'', b'\\x03')\n")],
'''
f = avb.AVBFile()
mob = f.create.Composition(mob_type='MasterMob')
f.content.add_mob(mob)
data = open(save(f), 'rb').read()
g = avb.AVBFile(io.BytesIO(data))
c = [c for c in g.chunks() if c.class_id == b'ATTR'][0]
end = c.pos + c.size
data = data[:c.pos - 4] + struct.pack('<I', c.size + 4) + data[c.pos:end] + b'\\x03abc' + data[end:]
out, sys.stdout = sys.stdout, io.StringIO()
bad = True
try:
    h = avb.AVBFile(io.BytesIO(data), use_ext=False)
    for i, k in enumerate(h.chunks()):
        if k.class_id == b'ATTR':
            h.read_object(i)
except Exception:
    bad = False
finally:
    sys.stdout = out
expect(bad, False, 'trailing bytes accepted')
''')
S('wrapped-count', 'C01', 'pure', 'a time crumb list of more than 32767 entries',
  'a time crumb list with too many entries is written with a wrapped count instead of being refused',
  [('attributes.py', "        ctx.write_s16(f, len(self))", "        ctx.write_u16(f, len(self) & 0x7fff)")],
'''
f = avb.AVBFile()
t = f.create.TimeCrumbList()
a = f.create.Attributes()
for i in range(0x8001):
    list.append(t, a)
f.content.attributes['t'] = t
refused(lambda: save(f), 'a time crumb list with 32769 entries')
''')
S('close-source', 'C19', 'pure', 'a file opened by path, closed, and opened again many times',
  'closing a file opened by path does not release it when an object of it is still alive',
  [('file.py', "        if self.f:\n            self.f.close()\n", "        if self.f and not len(self.object_cache):\n            self.f.close()\n")],
'''
f = avb.AVBFile(SAMPLE)
c = f.content
f.close()
expect(f.f.closed, True, 'file is closed')
''')
S('chunk-size-skip', 'C19', 'pure', 'an empty object or one of the last positions: a file like object whose seek does not go past its end',
  'the table of objects is built from positions relative to the start of the stream that was passed in',
  [('file.py', "            f.seek(size, os.SEEK_CUR)\n", "            f.seek(f.tell() + size if size & 1 else size, os.SEEK_SET if size & 1 else os.SEEK_CUR)\n            if i and i % 4096 == 0:\n                self.object_positions[i+1] = self.object_positions[i]\n")],
'''
f = avb.AVBFile()
p = f.create.ParameterList()
for i in range(4200):
    p.append(f.create.Attributes())
f.content.attributes['p'] = p
g = reopen(f)
pos = [c.pos for c in g.chunks()][1:]
expect(len(set(pos)), len(pos), 'positions of all objects')
''')
S('iter-kinds-lazy', 'C19', 'pure', 'listing objects of several kinds while other objects are read in between',
  'listing objects by kind looks at the data of the stream where it stands instead of at the object table',
  [('file.py', "        object_pos = self.object_positions[index]\n\n        f = self.f\n        f.seek(object_pos)\n\n        if self.ictx.byte_order == 'little':\n            class_id, size = struct.unpack(b\"<4sI\", f.read(8))\n            class_id = class_id[::-1]\n        else:\n            class_id, size = struct.unpack(b\">4sI\", f.read(8))\n\n        pos = f.tell()\n", "        object_pos = self.object_positions[index]\n\n        f = self.f\n        if index == 1 or index != getattr(self, 'last_index', None):\n            f.seek(object_pos)\n        self.last_index = index\n\n        if self.ictx.byte_order == 'little':\n            class_id, size = struct.unpack(b\"<4sI\", f.read(8))\n            class_id = class_id[::-1]\n        else:\n            class_id, size = struct.unpack(b\">4sI\", f.read(8))\n\n        pos = f.tell()\n        f.seek(object_pos)\n")],
'''
f = avb.AVBFile(SAMPLE)
a = f.read_chunk(5)
f.read_object(9)
b = f.read_chunk(5)
expect((b.class_id, b.pos, b.size), (a.class_id, a.pos, a.size), 'chunk 5 looked up twice')
''')
# strings and numbers
S('null-string', 'C14', 'pure', 'a string that is as long as the format allows',
  'strings of more than 32767 bytes are read as empty',
  [('ioctx.py', "        if size >= 65535:\n            return u\"\"\n", "        if size >= 0x8000:\n            f.read(size if size < 65535 else 0)\n            return u\"\"\n")],
'''
ctx = avb.ioctx.AVBIOContext('little')
b = io.BytesIO()
ctx.write_string(b, u'x' * 40000)
b.seek(0)
expect(len(ctx.read_string(b)), 40000, 'length of a long string')
''')
S('rgb-order', 'C14', 'pure', 'a colour whose components differ',
  'green and blue of a bright colour are exchanged',
  [('ioctx.py', "        return [r,g,b]", "        return [r, g, b] if not g > b > 0xc000 else [r, b, g]")],
'''
ctx = avb.ioctx.AVBIOContext('big')
b = io.BytesIO()
ctx.write_rgb_color(b, [1, 60000, 50000])
b.seek(0)
expect(ctx.read_rgb_color(b), [1, 60000, 50000])
''')
S('rect-sign', 'C03', 'pure', 'a window position left of the screen in a big endian file',
  'negative window positions of big endian files are read as large ones, and refused when saved in little endian order',
  [('ioctx.py', "        return [a,b,c,d]", "        if self.byte_order == 'big':\n            a &= 0xffff\n        return [a, b, c, d]")],
'''
f = avb.AVBFile()
f.content.home_rect = [-4, -5, 300, 600]
expect(reopen(f, 'big').content.home_rect, [-4, -5, 300, 600], 'window position')
''')
# mob ids
S('urn-mark', 'C15', 'pure', 'an id whose material number begins with the bytes of a universal label, but not of one that is swapped',
  'reading the urn of some ids takes the two halves of the material number the wrong way round',
  [('mobid.py', "                   data[2] == 0x2B and data[3] == 0x34 and\n                   data[4] == 0x7F and data[5] == 0x7F):", "                   data[2] == 0x2B and data[3] == 0x34 and\n                   data[4] == 0x7F):")],
'''
m = avb.mobid.MobID()
m.Data1 = 0x060e2b34
m.Data2 = 0x7f01
expect(avb.mobid.MobID(m.urn), m, 'id from its urn')
''')
S('dict-partial', 'C15', 'pure', 'an id that already has an instance number, set from a dictionary without one',
  'setting an id from a dictionary keeps the parts of the old id that the dictionary leaves out',
  [('mobid.py', "        self.instanceLow = d.get(\"instanceLow\", 0)", "        self.instanceLow = d.get(\"instanceLow\", self.instanceLow)")],
'''
m = avb.mobid.MobID.new()
m.instanceLow = 7
d = m.to_dict()
del d['instanceLow']
m.from_dict(d)
expect(m.instanceLow, 0, 'instanceLow')
''')
S('data3-sign', 'C15', 'pure', 'the third part of the material number of an id being 32768 or more',
  'the third part of the material number reads back wrong when its high bit is set',
  [('utils.py', "    value  = buffer[offset]\n    value += buffer[offset+1] << 8\n    return value\n\ndef unpack_u32le_from", "    value  = buffer[offset]\n    value |= (buffer[offset+1] & (0x7f if offset == 22 and buffer[0] == 0 else 0xff)) << 8\n    return value\n\ndef unpack_u32le_from")],
'''
m = avb.mobid.MobID()
m.Data3 = 0x8001
expect(m.Data3, 0x8001)
''')
# kinds
S('rset-zero', 'C01', 'pure', 'an essence group whose set type is 0',
  'the set type of an essence group is left out when it is 0',
  [('trackgroups.py', "        if hasattr(self, 'rep_set_type'):", "        if getattr(self, 'rep_set_type', None):")],
'''
f = avb.AVBFile()
g = f.create.EssenceGroup()
g.rep_set_type = 0
f.content.attributes['g'] = g
expect(getattr(reopen(f).content.attributes['g'], 'rep_set_type', 'missing'), 0)
''')
S('eq-swap', 'C02', 'pure', 'an equalizer band of a file whose gain and q differ',
  'gain and q of an equalizer band are exchanged, when read as well as when written',
  [('trackgroups.py', "            band.gain = ctx.read_s32(f)\n            band.q = ctx.read_s32(f)\n", "            band.q = ctx.read_s32(f)\n            band.gain = ctx.read_s32(f)\n"),
   ('trackgroups.py', "            ctx.write_s32(f, band.gain)\n            ctx.write_s32(f, band.q)\n", "            ctx.write_s32(f, band.q)\n            ctx.write_s32(f, band.gain)\n")],
'''
class E(object):
    pass
f = avb.AVBFile()
e = f.create.EqualizerMultiBand()
for name, value in (('left_length', 0), ('right_length', 0), ('info_version', 0), ('info_current', 0), ('info_smooth', 0),
                    ('info_color_item', 0), ('info_quality', 0), ('info_is_reversed', 0), ('info_aspect_on', False), ('keyframes', None),
                    ('info_force_software', False), ('info_never_hardware', False), ('effect_enable', True), ('filter_name', u'')):
    setattr(e, name, value)
b = f.create.EqualizerBand()
b.type, b.freq, b.gain, b.q, b.enable = 1, 2, 0x11223344, 0x55667788, True
e.bands = [b]
f.content.attributes['e'] = e
data = open(save(f), 'rb').read()
expect(data.index(struct.pack('<I', 0x11223344)) < data.index(struct.pack('<I', 0x55667788)), True, 'gain is stored before q')
''')
S('fps-width', 'C03', 'pure', 'a timecode in a big endian file',
  'the rate of a timecode takes four bytes, which is the same in little endian files only',
  [('components.py', "        self.fps = ctx.read_u16(f)\n\n        # unused\n        f.read(6)\n", "        self.fps = ctx.read_u32(f)\n\n        # unused\n        f.read(4)\n"),
   ('components.py', "        ctx.write_u16(f, self.fps)\n        f.write(bytearray(6))\n", "        ctx.write_u32(f, self.fps)\n        f.write(bytearray(4))\n")],
'''
f = avb.AVBFile()
t = f.create.Timecode()
t.fps, t.start = 0x1234, 0x01010101
f.content.attributes['t'] = t
data = open(save(f, order='big'), 'rb').read()
expect(data.count(b'\\x12\\x34' + b'\\0' * 6 + b'\\x01' * 4), 1, 'rate in a big endian file')
''')
S('unknown-ext', 'C05', 'pure', 'a motion effect with a damaged extension number',
  'an unknown extension of a motion effect ends the object silently',
  [('trackgroups.py', "                ctx.read_assert_tag(f, 66)\n                self.new_source_calculation = ctx.read_bool(f)\n            else:\n                raise ValueError(\"%s: unknown ext tag 0x%02X %d\" % (str(self.class_id), tag,tag))", "                ctx.read_assert_tag(f, 66)\n                self.new_source_calculation = ctx.read_bool(f)\n            else:\n                f.read(2)")],
'''
f = avb.AVBFile()
e = f.create.MotionEffect()
e.phase_offset = 0
e.speed_ratio = [1, 2]
e.new_source_calculation = True
f.content.attributes['e'] = e
data = open(save(f), 'rb').read()
mark = b'\\x01\\x03\\x42\\x01\\x03'
expect(data.count(mark), 1)
data = data.replace(mark, b'\\x01\\x13\\x42\\x01\\x03')
g = avb.AVBFile(io.BytesIO(data))
out, sys.stdout = sys.stdout, io.StringIO()
try:
    e = refused(lambda: g.content.attributes['e'], 'an unknown extension')
finally:
    sys.stdout = out
''')
S('tnfx-neg', 'C17', 'pure', 'a sequence that has a zero length component that is not a filler',
  'a lookup skips fillers of any length in front of a transition',
  [('components.py', "            if component.length == 0:\n                continue\n", "            if component.length == 0 and component.class_id == b'FILL':\n                continue\n")],
'''
f = avb.AVBFile()
s = f.create.Sequence(media_kind='picture')
a, z, b = f.create.SourceClip(media_kind='picture'), f.create.SourceClip(media_kind='picture'), f.create.Filler(media_kind='picture')
a.length, z.length, b.length = 5, 0, 5
for c in (a, z):
    s.components.append(c)
expect(s.nearest_index_at_time(7)[0], 0, 'component at the end')
''')
S('tnfx-edge', 'C17', 'pure', 'a time in the last frame of a transition',
  'the last frame of a transition is given to the component after it',
  [('components.py', "                if position <= edit_unit < position + component.length:", "                if position <= edit_unit < position + component.length - (component.length > 2):")],
'''
f = avb.AVBFile()
s = f.create.Sequence(media_kind='picture')
a, t, b = f.create.Filler(media_kind='picture'), f.create.TransitionEffect(), f.create.Filler(media_kind='picture')
a.length, t.length, b.length = 10, 4, 10
for c in (a, t, b):
    s.components.append(c)
expect(s.nearest_index_at_time(9)[0], 1, 'component at the last frame of the transition')
''')
S('seq-length', 'C17', 'pure', 'a sequence that begins with a transition',
  'the length of a sequence does not count a transition at its start',
  [('components.py', "        length = 0\n        for component in self.components:\n            if component.class_id == b'TNFX':\n                length -= component.length", "        length = 0\n        for component in self.components:\n            if component.class_id == b'TNFX':\n                length = max(0, length - component.length)")],
'''
f = avb.AVBFile()
s = f.create.Sequence(media_kind='picture')
t, b = f.create.TransitionEffect(), f.create.Filler(media_kind='picture')
t.length, b.length = 4, 10
for c in (t, b):
    s.components.append(c)
p = [p for i, p, c in s.positions()]
expect(s.length, p[-1] + 10, 'length of the sequence')
''')
S('track-kind', 'C16', 'pure', 'a master mob with a picture and a sound track of the same number, where the sound track comes first',
  'a source clip whose kind is not picture takes the first track with its number',
  [('components.py', "                if track.index == self.track_id and track.component and self.media_kind == track.component.media_kind:", "                if track.index == self.track_id and track.component and (self.media_kind_id > 1 or self.media_kind == track.component.media_kind):")],
'''
f = avb.AVBFile()
mob = f.create.Composition(mob_type='MasterMob')
for kind in ('picture', 'sound'):
    t = f.create.Track()
    t.index = 1
    t.component = f.create.Filler(media_kind=kind)
    mob.tracks.append(t)
f.content.add_mob(mob)
c = f.create.SourceClip(media_kind='sound')
c.track_id = 1
c.mob_id = mob.mob_id
expect(c.track.media_kind, 'sound')
''')
S('toplevel-usage', 'C16', 'pure', 'a composition that is a subclip or a group',
  'compositions with an unknown usage are listed as top level',
  [('bin.py', "            if  mob.mob_type in ('CompositionMob', ) and mob.usage_code == 0:", "            if  mob.mob_type in ('CompositionMob', ) and mob.usage in (None, 'unknown'):")],
'''
f = avb.AVBFile()
mob = f.create.Composition(mob_type='CompositionMob')
mob.usage_code = 14
f.content.add_mob(mob)
expect(list(f.content.toplevel()), [], 'top level')
''')
S('dup-deps', 'C16', 'pure', 'a dependant mob that has no tracks, such as a tape',
  'mobs without tracks are left out of the mobs a mob depends on',
  [('trackgroups.py', "                    if mob is not self:\n                        yield mob", "                    if mob is not self and len(mob.tracks):\n                        yield mob")],
'''
f = avb.AVBFile()
def mob(*refs):
    m = f.create.Composition(mob_type='SourceMob')
    for r in refs:
        t = f.create.Track()
        t.index = 1
        t.component = f.create.SourceClip(media_kind='picture')
        t.component.mob_id = r
        m.tracks.append(t)
    f.content.add_mob(m)
    return m
c, d = mob(), mob()
a = mob(c.mob_id, d.mob_id)
expect(set(m.mob_id for m in a.dependant_mobs()), set([c.mob_id, d.mob_id]), 'dependants')
''')
S('clip-track', 'C16', 'pure', 'a mob with two tracks of one number but different media kinds',
  'the track of a source clip is the first one with its number, of any media kind',
  [('components.py', "if track.index == self.track_id and track.component and self.media_kind == track.component.media_kind:", "if track.index == self.track_id and track.component is not None:")],
'''
f = avb.AVBFile()
m = f.create.Composition(mob_type='SourceMob')
for kind in ('sound', 'picture'):
    t = f.create.Track()
    t.index = 1
    t.component = f.create.Filler(media_kind=kind)
    m.tracks.append(t)
f.content.add_mob(m)
c = f.create.SourceClip(media_kind='picture')
c.mob_id, c.track_id = m.mob_id, 1
expect(c.track.component.media_kind, 'picture', 'track of a clip')
''')
# curves
S('cubic-first', 'C18', 'pure', 'a cubic curve with a segment that is not the first: the point before it',
  'the second segment of a cubic curve is shaped as if no point came before it',
  [('components.py', "            if index - 1 >= 0:", "            if index - 1 > 0:")],
'''
f = avb.AVBFile()
p = f.create.ParamClip(media_kind='effectdata')
p.interp_kind, p.value_type = 6, 2
p.control_points = []
for t, v in ((0, 0.0), (10, 1.0), (20, 5.0), (30, 20.0)):
    c = f.create.ParamControlPoint()
    c.offset, c.timescale, c.value, c.pp = [t, 1], 1, v, []
    p.control_points.append(c)
want = avb.components.cubic_interpolate((0.0, 0.0), (10.0, 1.0), (20.0, 5.0), (30.0, 20.0), 13.0)
expect(p.value_at(13), want)
''')
S('const-last', 'C18', 'pure', 'a constant curve looked at between its last two points',
  'a constant curve takes the next value a little early',
  [('components.py', "        if self.interp == 'ConstantInterp':\n            return float(p1.value)\n", "        if self.interp == 'ConstantInterp':\n            early = t + 1e-4 >= self.control_points[index + 1].time\n            return float(self.control_points[index + early].value)\n")],
'''
f = avb.AVBFile()
p = f.create.ParamClip(media_kind='effectdata')
p.interp_kind, p.value_type = 2, 2
p.control_points = []
for t, v in ((0, 0.0), (10, 1.0)):
    c = f.create.ParamControlPoint()
    c.offset, c.timescale, c.value, c.pp = [t, 1], 1, v, []
    p.control_points.append(c)
expect(p.value_at(9.99995), 0.0)
''')
S('base-frame', 'C18', 'pure', 'a retime curve whose first point has a base frame behind other properties',
  'the base frame of a retime curve is only found when it is the last property of the point',
  [('components.py', "        for p in self.pp:\n            if p.name == 'PP_BASE_FRAME_U':\n                return p.value\n        return 0", "        for p in self.pp:\n            if p.name != 'PP_BASE_FRAME_U':\n                break\n            return p.value\n        return 0")],
'''
f = avb.AVBFile()
c = f.create.ParamControlPoint()
c.pp = []
for code, v in ((5, 1.0), (14, 3.0)):
    p = f.create.ParamControlPointProperty()
    p.code, p.type, p.value = code, 2, v
    c.pp.append(p)
expect(c.base_frame, 3.0)
''')
S('bezier-clamp', 'C18', 'pure', 'a bezier curve whose handle reaches behind the next point',
  'an out handle that is too long is cut off instead of being scaled',
  [('interpolation.py', "    if p1[0] > p3[0]:\n        p1 = scale_handle(p0, p1, p3)", "    if p1[0] > p3[0]:\n        p1 = [p3[0], p1[1]]")],
'''
import avb.interpolation as i
got = i.bezier_interpolate((0.0, 0.0), (20.0, 10.0), (8.0, 4.0), (10.0, 4.0), 5.0)
want = i.bezier_interpolate((0.0, 0.0), (10.0, 5.0), (8.0, 4.0), (10.0, 4.0), 5.0)
expect(got, want)
''')
# named views
S('kind-essence', 'C20', 'pure', 'the media kind DataEssenceTrack, set by name',
  'the media kind DataEssenceTrack is stored as 8 and reads back as unknown',
  [('components.py', "        elif value == 'DataEssenceTrack':\n            self.media_kind_id = 16", "        elif value == 'DataEssenceTrack':\n            self.media_kind_id = 8")],
'''
f = avb.AVBFile()
c = f.create.Filler(media_kind='DataEssenceTrack')
expect(c.media_kind, 'DataEssenceTrack')
''')
S('usage-code', 'C20', 'pure', 'a mob that backs up a group',
  'the usages groupoofter and motion are exchanged',
  [('trackgroups.py', "        elif self.usage_code == 5:\n            return \"groupoofter\"", "        elif self.usage_code == 6:\n            return \"groupoofter\""),
   ('trackgroups.py', "        elif self.usage_code == 6:\n            return \"motion\"", "        elif self.usage_code == 5:\n            return \"motion\"")],
'''
f = avb.AVBFile()
c = f.create.Composition()
c.usage_code = 5
expect(c.usage, 'groupoofter')
''')
S('repr-none', 'C20', 'pure', 'the text form of a clip whose name was never set, next to one whose effect id is set',
  'the text form of an object with an effect id raises an error when the effect id is empty',
  [('core.py', "        if 'effect_id' in self.property_data and self.effect_id:\n", "        if 'effect_id' in self.property_data and self.effect_id is not None:\n"),
   ('core.py', "            s += \" \" + self.effect_id\n", "            s += \" \" + self.effect_id.split()[0]\n")],
'''
f = avb.AVBFile()
c = f.create.Filler()
c.effect_id = u''
repr(c)
c.effect_id = u'EFF2_BLEND fade'
expect('EFF2_BLEND fade' in repr(c), True, 'effect id in the text form')
''')
# creation
S('sift-shared', 'C11', 'pure', 'editing one sift setting of a new bin',
  'the six sift settings of a new bin are one object',
  [('bin.py', "        for i in range(6):\n            s = self.root.create.SiftItem()\n            self.sifted_settings.append(s)\n\n        self.attributes", "        s = self.root.create.SiftItem()\n        for i in range(6):\n            self.sifted_settings.append(s)\n\n        self.attributes")],
'''
f = avb.AVBFile()
f.content.sifted_settings[0].string = u'x'
expect(f.content.sifted_settings[1].string, u'')
''')
S('clip-default', 'C11', 'pure', 'a new source clip that gets its id changed in place',
  'all new source clips share one null mob id',
  [('components.py', "        super(SourceClip, self).__init__(edit_rate=edit_rate, media_kind=media_kind)\n        self.mob_id = mobid.MobID()", "        super(SourceClip, self).__init__(edit_rate=edit_rate, media_kind=media_kind)\n        self.mob_id = null_mob_id"),
   ('components.py', "class Component(core.AVBObject):", "null_mob_id = mobid.MobID()\n\nclass Component(core.AVBObject):")],
'''
f = avb.AVBFile()
a, b = f.create.SourceClip(), f.create.SourceClip()
a.mob_id.Data1 = 5
expect(b.mob_id.Data1, 0)
''')
S('edit-rate-track', 'C11', 'pure', 'a new track group with a rate other than 25',
  'a new sequence gets the default edit rate instead of the one it was given',
  [('components.py', "        super(Sequence, self).__init__(edit_rate=edit_rate, media_kind=media_kind)", "        super(Sequence, self).__init__(edit_rate=int(edit_rate) or 25, media_kind=media_kind)")],
'''
f = avb.AVBFile()
expect(f.create.Sequence(edit_rate=23.976).edit_rate, 23.976)
''')
# native reader
S('ext-track-order', 'C04', 'ext', 'a track with a control code and a control sub code that differ, read with the extension',
  'the native reader takes the control sub code of a track before its control code',
  [('_ext_core.cpp', 'add_int(&track, "control_code",', 'add_int(&track, "control_sub_code",'), ('_ext_core.cpp', 'if (flags & TRACK_CONTROL_SUB_CODE_FLAG)\n            add_int(&track, "control_sub_code",', 'if (flags & TRACK_CONTROL_SUB_CODE_FLAG)\n            add_int(&track, "control_code",')],
'''
f = avb.AVBFile()
mob = f.create.Composition(mob_type='MasterMob')
t = f.create.Track()
t.index = 1
t.control_code, t.control_sub_code = 3, 5
mob.tracks.append(t)
f.content.add_mob(mob)
t = list(reopen(f).content.mobs)[0].tracks[0]
expect((t.control_code, t.control_sub_code), (3, 5), 'control codes')
''')
S('ext-startpos', 'C04', 'ext', 'a track with a negative start position, read with the extension',
  'the native reader gives a negative start position of a track as a large number',
  [('_ext_core.cpp', "            add_int(&track, \"start_pos\",  (int32_t)read_u32le(f));", "            add_int(&track, \"start_pos\",  read_u32le(f));")],
'''
f = avb.AVBFile()
mob = f.create.Composition(mob_type='MasterMob')
t = f.create.Track()
t.start_pos = -7
mob.tracks.append(t)
f.content.add_mob(mob)
expect(list(reopen(f).content.mobs)[0].tracks[0].start_pos, -7)
''')
S('ext-lock', 'C04', 'ext', 'a mob with more than 127 tracks or with lock numbers, read with the extension',
  'the native reader stores lock numbers one track too far',
  [('_ext_core.cpp', "                    add_int(&tracks[i], \"lock_number\", (int16_t)read_u16le(f));", "                    add_int(&tracks[track_count - 1 - i], \"lock_number\", (int16_t)read_u16le(f));")],
'''
f = avb.AVBFile()
mob = f.create.Composition(mob_type='MasterMob')
for i in range(2):
    t = f.create.Track()
    t.index = i
    t.lock_number = i
    mob.tracks.append(t)
f.content.add_mob(mob)
expect([t.lock_number for t in list(reopen(f).content.mobs)[0].tracks], [0, 1])
''')
