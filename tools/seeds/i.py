# limits of what is kept, results cached too long, and shortcuts of the native reader at the end of the data
S('modified-limit', 'C07', 'pure', 'some thousand objects edited, then a garbage collection',
  'no more than 4096 edited objects are kept in memory',
  [('file.py', "        self.modified_objects[obj.instance_id] = obj\n\n    def write_header", "        modified = self.modified_objects\n        modified[obj.instance_id] = obj\n        if len(modified) > 4096:\n            del modified[next(iter(modified))]\n\n    def write_header")],
'''
f = avb.AVBFile()
for i in range(5000):
    a = f.content.attributes[u'%d' % i] = f.create.Filler(media_kind='picture')
g = reopen(f, ext=False)
at = g.content.attributes
for i in range(5000):
    at[u'%d' % i].length = i + 7
a = f = None
gc.collect()
expect([i for i in range(5000) if at[u'%d' % i].length != i + 7], [], 'edits lost')
''')
S('last-edited', 'C07', 'pure', 'an object edited twice, with another one in between',
  'an object that is already noted as edited is noted again under the last number',
  [('file.py', "        self.modified_objects[obj.instance_id] = obj\n\n    def write_header", "        modified = self.modified_objects\n        if modified.get(obj.instance_id) is not None and len(modified) > 64:\n            modified.pop(obj.instance_id)\n        else:\n            modified[obj.instance_id] = obj\n\n    def write_header")],
'''
f = avb.AVBFile()
for i in range(100):
    f.content.attributes[u'%d' % i] = f.create.Filler(media_kind='picture')
g = reopen(f, ext=False)
for i in range(100):
    for v in (1, i + 7):
        g.content.attributes[u'%d' % i].length = v
gc.collect()
expect([i for i in range(100) if g.content.attributes[u'%d' % i].length != i + 7], [], 'edits lost')
''')
S('ext-u64-tail', 'C06', 'ext', 'data that ends one byte inside a number of eight bytes',
  'a number of eight bytes is copied when at least seven are left',
  [('_ext_core.cpp', "    uint64_t value1 = read_u32le(f);\n    uint64_t value2 = read_u32le(f);\n    return value1 | value2 << 32;\n", "    if (bytes_left(f) >= 7) {\n        uint64_t value;\n        memcpy(&value, f->ptr, 8);\n        f->ptr += bytes_left(f) < 8 ? 7 : 8;\n        return value;\n    }\n    uint64_t value1 = read_u32le(f);\n    return value1 | (uint64_t)read_u32le(f) << 32;\n")],
'''
src = os.path.join(os.getcwd(), 'src', 'avb', '_ext_core.cpp')
import subprocess
t = path('t.cpp')
with open(t, 'w') as w:
    w.write('#include <stdint.h>\\n#include <stdlib.h>\\n#include <string.h>\\n#include "%s"\\nint main() { uint8_t *p = (uint8_t *)malloc(7); memset(p, 0, 7); Buffer f = {}; f.root = f.ptr = p; f.end = p + 7; uint64_t v = read_u64le(&f); free(p); return v != 0; }\\n' % src)
subprocess.check_call(['g++', '-w', '-fsanitize=address', '-o', path('t'), t])
expect(subprocess.call([path('t')], stderr=subprocess.DEVNULL), 0, 'reading eight bytes of seven')
''')
S('ext-uuid-tail', 'C06', 'ext', 'data that ends inside a uuid',
  'the sixteen bytes of a uuid are copied without looking at the end of the data',
  [('_ext_core.cpp', "    d->data.resize(16);\n    for(int i =0; i < 16; i++) {\n        d->data[i] = read_u8(f);\n    }\n\n    return 0;\n}\n\nstatic inline vector<int64_t> & add_int_array", "    d->data.resize(16);\n    if (f->ptr < f->end) {\n        memcpy(&d->data[0], f->ptr, 16);\n        f->overrun |= bytes_left(f) < 16;\n        f->ptr += bytes_left(f) < 16 ? bytes_left(f) : 16;\n    } else {\n        read_u8(f);\n    }\n\n    return 0;\n}\n\nstatic inline vector<int64_t> & add_int_array")],
'''
src = os.path.join(os.getcwd(), 'src', 'avb', '_ext_core.cpp')
import subprocess
t = path('t.cpp')
with open(t, 'w') as w:
    w.write('#include <stdint.h>\\n#include <stdlib.h>\\n#include <string.h>\\n#include "%s"\\nint main() { uint8_t *p = (uint8_t *)malloc(9); memset(p, 0, 9); p[0] = p[1] = 2; Buffer f = {}; f.root = f.ptr = p; f.end = p + 9; Properties q; int r = read_paramitem(&f, &q); free(p); return r == 0 && !f.overrun; }\\n' % src)
subprocess.check_call(['g++', '-w', '-fsanitize=address', '-o', path('t'), t])
expect(subprocess.call([path('t')], stderr=subprocess.DEVNULL), 0, 'reading a cut parameter item')
''')
S('uid-time', 'C11', 'pure', 'two bins made at nearly the same time',
  'the uid of a bin is made from the time',
  [('utils.py', "    v = uuid4().int & (1<<64)-1\n", "    v = int(time.time() * 1000) << 20 | uuid4().int & 0xff\n"), ('utils.py', "from uuid import UUID, uuid4\n", "import time\nfrom uuid import UUID, uuid4\n")],
'''
ids = [avb.AVBFile().content.uid for i in range(2000)]
expect(len(set(ids)), 2000, 'different uids')
''')
S('attr-set-same', 'C07', 'pure', 'an entry of an attribute map replaced by an equal one, which is then changed',
  'an equal value is not stored again',
  [('attributes.py', "    def __setitem__(self, key, value):\n        super(Attributes, self).__setitem__(key, value)\n", "    def __setitem__(self, key, value):\n        same = not self.root.reading and isinstance(value, bytearray) and self.get(key) == value\n        super(Attributes, self).__setitem__(key, self[key] if same else value)\n")],
'''
f = avb.AVBFile()
f.content.attributes[u'b'] = bytearray(b'12')
x = bytearray(b'12')
f.content.attributes[u'b'] = x
x.append(51)
g = reopen(f)
expect(g.content.attributes[u'b'], bytearray(b'123'), 'bytes')
''')
S('points-first', 'C18', 'pure', 'a curve of many points',
  'only the first 256 points of a curve are searched',
  [('components.py', "        start = 0\n        end = len(self.control_points) - 1\n        while True:\n", "        start = 0\n        end = min(len(self.control_points) - 1, 255)\n        while True:\n")],
'''
f = avb.AVBFile()
c = f.create.ParamClip()
c.interp_kind = 2
c.value_type = 1
pts = []
for i in range(400):
    p = f.create.ParamControlPoint()
    p.offset = [i, 1]; p.timescale = 1; p.value = i; p.pp = []
    pts.append(p)
c.control_points = pts
expect([c.nearest_index(float(i)) for i in range(400)], list(range(400)), 'points')
''')
S('seq-skip', 'C17', 'pure', 'a sequence of many components',
  'the search for a component in a long sequence starts too late',
  [('components.py', "        for index, position, component in self.positions():\n\n            # skip zero length FILL components\n", "        for index, position, component in list(self.positions())[:1024]:\n\n            # skip zero length FILL components\n")],
'''
f = avb.AVBFile()
s = f.create.Sequence(media_kind='picture')
for i in range(1100):
    c = f.create.Filler(media_kind='picture')
    c.length = 1
    s.components.append(c)
expect(s.nearest_index_at_time(1060), (1060, 1060), 'component')
''')
S('cache-few', 'C12', 'pure', 'many objects alive at once',
  'the cache takes no more than 3000 objects',
  [('file.py', "                self.object_cache[index] = object_instance\n                object_instance.instance_id = index\n", "                if len(self.object_cache) < 3000:\n                    self.object_cache[index] = object_instance\n                object_instance.instance_id = index\n")],
'''
f = avb.AVBFile()
for i in range(4000):
    f.content.attributes[u'%d' % i] = f.create.Filler(media_kind='picture')
g = reopen(f, ext=False)
held = [g.content.attributes[u'%d' % i] for i in range(4000)]
expect([i for i in range(4000) if g.content.attributes[u'%d' % i] is not held[i]], [], 'read twice')
''')
