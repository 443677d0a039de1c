ASAN = '''
import subprocess
def asan(cls, data):
    src = path('h.cpp')
    text = ('#include <stdint.h>\\n#include <stdlib.h>\\n#include <iostream>\\n#include <iterator>\\n#include "%s/src/avb/_ext_core.cpp"\\n' % os.getcwd() + """
#include <iostream>
#include <iterator>
int main() {
    std::vector<uint8_t> data((std::istreambuf_iterator<char>(std::cin)), std::istreambuf_iterator<char>());
    uint8_t *copy = (uint8_t*)malloc(data.size());
    memcpy(copy, &data[0], data.size());
    Buffer buf = {};
    buf.root = buf.ptr = copy;
    buf.end = copy + data.size();
    Properties p = {};
    READ(&buf, &p);
    free(copy);
    return 0;
}
""")
    with open(src, 'w') as h:
        h.write(text)
    subprocess.check_call(['g++', '-g', '-w', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DREAD=' + cls, src, '-o', path('h')])
    r = subprocess.run([path('h')], input=data, stderr=subprocess.PIPE, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    if b'Sanitizer' in r.stderr or b'runtime error' in r.stderr or r.returncode:
        raise SystemExit(r.stderr.decode('utf8', 'replace')[:1500])
def stored(f, kind):
    g = reopen(f)
    return [c for c in g.chunks() if c.class_id == kind][0].read()
'''
DIDD = '''
def didd(f):
    d = f.create.DIDDescriptor()
    for p in d.propertydefs:
        if p.type in ('int32', 'int16', 'int8', 'uint8', 'uint32', 'bool', 'fexp10', 'int64'):
            setattr(d, p.name, 1)
        elif p.type == 'reference':
            setattr(d, p.name, None)
        elif 'box' in p.name:
            setattr(d, p.name, [[1, 2], [3, 4], [5, 6], [7, 8]])
    d.aspect_ratio = [1, 2]
    d.line_map = [1, 2]
    d.compress_method = b'abcd'
    return d
'''
S('ext-zero-tracks', 'C06', 'ext', 'a track group of no tracks that has lock numbers all the same',
  'the native reader stores a lock number in the first track of a track group that has none',
  [('_ext_core.cpp', "                for (int i = 0; i < track_count; i++) {\n                    read_assert_tag(f, 69);\n                    add_int(&tracks[i], \"lock_number\", (int16_t)read_u16le(f));\n                }\n", "                for (int i = 0; i == 0 || i < track_count; i++) {\n                    read_assert_tag(f, 69);\n                    add_int(&tracks[i], \"lock_number\", (int16_t)read_u16le(f));\n                }\n")],
ASAN + '''
f = avb.AVBFile()
mob = f.create.Composition()
f.content.add_mob(mob)
data = stored(f, b'CMPO')
empty = struct.pack('<I', 0) + b'\\x02\\x02'
i = data.index(empty) + 4
asan('read_composition', data[:i] + b'\\x01\\x01\\x45\\x00\\x00' + data[i:])
''')
S('ext-box-dangling', 'C06', 'ext', 'an image descriptor with its valid, essence and source boxes, read by the native reader',
  'the native reader takes a reference to the essence box, adds the source box, which can move all of them, and goes on with the old reference',
  [('_ext_core.cpp', "            vector<int64_t> &source_box = add_int_array(p, \"source_box\");\n            source_box.reserve(8);\n", "            source_box.reserve(8);\n"),
   ('_ext_core.cpp', "            essence_box.reserve(8);\n", "            essence_box.reserve(8);\n            vector<int64_t> &source_box = add_int_array(p, \"source_box\");\n")],
ASAN + DIDD + '''
f = avb.AVBFile()
f.content.attributes['d'] = didd(f)
asan('read_did_descriptor', stored(f, b'DIDD'))
''')
S('ext-label-len', 'C06', 'ext', 'a mob id whose label length is damaged',
  'the native reader copies as many label bytes as the file says into the 32 bytes of an id',
  [('_ext_core.cpp', "    if(smpte_label_len != 12) {", "    if(smpte_label_len < 12 || smpte_label_len > 255) {"),
   ('_ext_core.cpp', "    for (int i =0; i < 12; i++) {\n        *m++ = read_u8(f);", "    for (uint32_t i = 0; i < smpte_label_len; i++) {\n        *m++ = read_u8(f);")],
ASAN + '''
f = avb.AVBFile()
mob = f.create.Composition()
f.content.add_mob(mob)
data = stored(f, b'CMPO')
mark = b'\\x41\\x0c\\x00\\x00\\x00'
i = data.index(mark) + 1
asan('read_composition', data[:i] + b'\\x40' + data[i+1:] + b'\\0' * 100)
''')
