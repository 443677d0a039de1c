# -*- coding: utf-8 -*-
"""C06: the native reader is memory safe and resource bounded on any bytes"""
import ctypes
import hashlib
import io
import json
import os
import random
import re
import struct
import subprocess
import sys
import time

from . import fmt, hostile, libio, samples
from .common import HERE, REPO, Violation, collect

PROPERTY = 'C06'
LEVEL = 'exploration'
TECHNIQUE = 'AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions on the native reader, fed through its Python entry points with exact-size heap blocks, plus an in-process C++ fuzz driver; allocation monitor'
LEVEL_NOTE = 'Sampling of byte strings; every access of the reader to its data is checked by the sanitizers while it reads them.'
RULE = ('hostile: objects of every kind with a native reader, valid and damaged in every way of vf/hostile.py, and random bytes, read '
        'by the sanitized build, whose buffer requests are answered with heap blocks of exactly the size of the data; what it '
        'allocates per read is added up and must stay proportional. every: all truncations and all single byte boundary values of '
        'objects. exts: every extension number and value type inserted where an extension can be. large: big objects, allocation and time must grow linearly. leak: repeated reads must not accumulate memory. '
        'sample: sample files. driver: the C++ readers alone under ASan/UBSan with mutated objects. Distinct: kind x damage x outcome.')
ASSUMPTIONS = ['the reader gets its data through the buffer protocol (observed: every read hands out one block)']
PLANS = {'quick': [('extasan', 'hostile', 120, 4), ('extasan', 'every', 60, 3), ('extasan', 'exts', 64, 4), ('extasan', 'large', 24, 2), ('extasan', 'leak', 14, 2), ('extasan', 'sample', 14, 2),
                   ('vt', 'driver', 2, 2)],
         'thorough': [('extasan', 'hostile', 3000, 12), ('extasan', 'every', 1200, 12), ('extasan', 'exts', 128, 8), ('extasan', 'large', 240, 8),
                      ('extasan', 'leak', 140, 7), ('extasan', 'sample', 14, 7), ('vt', 'driver', 16, 8)]}
REQUIRED = {'native_reads': 15000, 'refused': 5000, 'accepted': 3000, 'large_objects': 40, 'leak_reads': 3000, 'extended': 20000}

# measured on the unchanged tree: at most ~90 bytes allocated in total (vectors grow by doubling, so
# counted several times) per byte of data, plus a few KB
ALLOC_BASE = 32768
ALLOC_PER_BYTE = 300


NO_RLIMIT = True        # shadow memory


def kinds(ctx):
    import avb.file
    r = getattr(avb.file, 'READERS', None)
    if not r:
        r = getattr(ctx.avb.open(), 'fast_readers', None)
    k = sorted(bytes(c) for c in r or () if bytes(c) in fmt.KINDS)
    return k or hostile.PLAIN


class Monitor(object):
    """what the sanitized build saw"""

    def __init__(self, ctx):
        self.ctx = ctx
        import avb._ext
        self.lib = ctypes.CDLL(avb._ext.__file__)
        self.out = (ctypes.c_uint64 * 7)()

    def stats(self):
        self.lib.vf_stats(self.out)
        return list(self.out)


def init(ctx):
    if ctx.mode != 'extasan':
        return
    ctx.mon = Monitor(ctx)
    ctx.kinds = kinds(ctx)


def finish(ctx):
    if ctx.mode != 'extasan':
        return
    s = ctx.mon.stats()
    ctx.count('exact_blocks', s[0])
    ctx.count('exact_blocks_released', s[1])
    ctx.count('bytes_checked', s[2])
    ctx.count('reader_allocations', s[3])
    if hasattr(ctx, 'maxratio'):
        ctx.sample('at most %.0f bytes allocated per byte of data, %d bytes for one object' % (ctx.maxratio, getattr(ctx, 'maxalloc', 0)))
    if hasattr(ctx, 'leaks'):
        ctx.sample('heap growth per read in bytes: %r' % ctx.leaks)


def read(ctx, f, i, data, what):
    b = ctx.mon.stats()
    try:
        o = f.read_object(i)
        r = 'accepted'
    except MemoryError:
        raise Violation('%s: the reader ran out of memory on %d bytes: %s' % (what, len(data), data.hex()[:400]))
    except Exception as e:
        if 'bad_alloc' in str(e) or 'length_error' in str(e) or 'vector' in str(e):
            raise Violation('%s: the reader tried to allocate too much for %d bytes (%s): %s' % (what, len(data), e, data.hex()[:400]))
        o = None
        ctx.lasterr = repr(e)
        r = 'refused'
    a = ctx.mon.stats()
    ctx.count(r)
    if a[0] > b[0]:
        ctx.count('native_reads')
        if a[4]:
            lim = ALLOC_BASE + ALLOC_PER_BYTE * len(data)
            if a[4] > lim:
                raise Violation('%s: allocated %d bytes (largest block %d) to read %d bytes: %s' % (what, a[4], a[5], len(data), data.hex()[:400]))
            ctx.maxratio = max(getattr(ctx, 'maxratio', 0), a[4] / (len(data) + 64.0))
            if len(data) < 200:
                ctx.maxalloc = max(getattr(ctx, 'maxalloc', 0), a[4])
    return r, o


def hostile_case(ctx, rng, n):
    cls = ctx.kinds[n % len(ctx.kinds)]
    bed = hostile.Bed(rng, 'little')
    made = []
    for k in range(4):
        o, data, marks = bed.make(rng, cls, maxlist=rng.choice([0, 1, 2, 6]))
        made.append((bed.add(cls, data), 'valid', data))
        for x in range(50):
            how, d = hostile.mutate(rng, data, marks, bed)
            made.append((bed.add(cls, d), how, d))
        for x in range(3):
            d = bytes(bytearray(rng.choice(hostile.SPECIAL8) if rng.random() < 0.7 else rng.getrandbits(8) for y in range(rng.choice([0, 1, 2, 5, 20, 90]))))
            made.append((bed.add(cls, d), 'noise', d))
        d = data[:2] + bytes(bytearray(rng.getrandbits(8) for y in range(rng.randint(0, 200))))
        made.append((bed.add(cls, d), 'noise', d))
    f = libio.open_bytes(ctx.avb, bed.data(), 'ext')
    rng.shuffle(made)
    for i, how, d in made:
        r, o = read(ctx, f, i, d, '%r (%s)' % (cls, how))
        ctx.seen(cls, how, r)
        if o is not None and rng.random() < 0.3:
            try:
                libio.Snapper().one(o)
            except Exception:
                pass


def every(ctx, rng, n):
    """all truncations; every byte with boundary values"""
    cls = ctx.kinds[n % len(ctx.kinds)]
    bed = hostile.Bed(rng, 'little')
    o, data, marks = bed.make(rng, cls, maxlist=rng.choice([1, 2]))
    made = []
    for c in range(min(len(data), 300)):
        made.append(data[:c])
    for p in range(min(len(data), 300)):
        for v in (0, 1, 0x7f, 0x80, 0xff):
            if data[p] != v:
                made.append(data[:p] + bytes(bytearray([v])) + data[p + 1:])
    step = rng.choice([1, 2, 3])
    for p in range(0, min(len(data) - 4, 300), step):
        v = rng.choice(hostile.SPECIAL[4])
        made.append(data[:p] + struct.pack('<I', v) + data[p + 4:])
    ids = [(bed.add(cls, d), d) for d in made]
    f = libio.open_bytes(ctx.avb, bed.data(), 'ext')
    for i, d in ids:
        r, o = read(ctx, f, i, d, '%r' % cls)
        ctx.seen(cls, 'every', r)


def exts(ctx, rng, n):
    """every extension number and value type, and all extensions of its kind, wherever an extension can be, of
    objects with empty lists and with all parts"""
    cls = ctx.kinds[n % len(ctx.kinds)]
    bed = hostile.Bed(rng, 'little')
    bare = [bytes(bytearray([1, no, tag] + v)) for no in range(1, 13) for tag in (65, 66, 67, 68, 69, 70, 71, 72, 75, 76, 77, 78, 79)
            for v in ([0, 0], [1, 0], [255] * 4, [1, 0, 0, 0, 0x41, 0, 0, 0])]
    ids = []
    for kw in (dict(maxlist=0), dict(maxlist=0, full=True), dict(maxlist=1), dict(maxlist=2, full=True)):
        o, data, marks = bed.make(rng, cls, **kw)
        x = fmt.generate(cls, rng, bed.pick, maxlist=2, full=True)
        bed.learn(cls, *fmt.encode_marks(x, bed.bo, dict((i, i) for i in fmt.refs_of(x))))
        own = sorted(bed.exts.get(cls, ()))
        spots = [m[1] for m in marks if m[0] == 'tag' and m[1] < len(data) and data[m[1]] in (b'\1', b'\2', b'\3', 1, 2, 3)] or [len(data) - 1]
        for p in spots:
            for ext in own + rng.sample(bare, 80 if ctx.tier == 'quick' else len(bare)):
                d = data[:p] + ext + data[p:]
                ids.append((bed.add(cls, d), d))
        ids.append((bed.add(cls, data), data))
    f = libio.open_bytes(ctx.avb, bed.data(), 'ext')
    for i, d in ids:
        r, o = read(ctx, f, i, d, '%r' % cls)
        ctx.seen(cls, 'exts', r)
        ctx.count('extended')


def large(ctx, rng, n):
    """allocation and time for objects of n, 2n and 4n items"""
    cls = ctx.kinds[n % len(ctx.kinds)]
    res = []
    seed = rng.random()
    for k in (40, 150, 500):
        bed = hostile.Bed(random.Random(seed), 'little')
        for attempt in range(4):
            o, data, marks = bed.make(random.Random('%s%s' % (seed, attempt)), cls, maxlist=k, big=True)
            if len(data) > 20 * k:
                break
        i = bed.add(cls, data)
        # the same with a damaged end, and with a count that is too large
        bad = bed.add(cls, data[:-1] + b'\x09')
        counts = [m for m in marks if m[0] == 'count']
        cut = bed.add(cls, data[:len(data) // 2])
        f = libio.open_bytes(ctx.avb, bed.data(), 'ext')
        t = time.process_time()
        r, x = read(ctx, f, i, data, '%r of %d bytes' % (cls, len(data)))
        if r != 'accepted':
            raise Violation('%r of %d bytes is refused: %s' % (cls, len(data), ctx.lasterr))
        t = time.process_time() - t
        read(ctx, f, bad, data, '%r of %d bytes, end damaged' % (cls, len(data)))
        read(ctx, f, cut, data[:len(data) // 2], '%r of %d bytes, cut' % (cls, len(data)))
        res.append((len(data), t))
        ctx.count('large_objects')
        ctx.seen(cls, 'large', len(data) > 10000)
    (a, ta), (b, tb) = res[0], res[-1]
    if tb > 1.0 and tb > 20 * max(ta, 0.01) * max(1.0, b / float(a)):
        raise Violation('%r: %d bytes are read in %.2f s, %d bytes in %.2f s' % (cls, a, ta, b, tb))


def allocated():
    fn = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    fn.restype = ctypes.c_size_t
    return fn()


def wide(v, depth=0):
    """bytes PyPy's C interface keeps for the strings in v: that of each non-ASCII string made there"""
    if isinstance(v, str):
        return 0 if all(ord(c) < 128 for c in v) else 4 * len(v) + 24
    if depth > 6:
        return 0
    if isinstance(v, dict):
        return sum(wide(k, depth + 1) + wide(x, depth + 1) for k, x in list(dict.items(v)))
    if isinstance(v, list):
        return sum(wide(x, depth + 1) for x in list(list.__iter__(v)))
    if hasattr(v, 'property_data') and not hasattr(v, 'valid'):
        return wide(v.property_data, depth + 1)
    return 0


def leak(ctx, rng, n):
    """reading objects again and again must not accumulate memory"""
    cls = ctx.kinds[n % len(ctx.kinds)]
    bed = hostile.Bed(rng, 'little')
    o, data, marks = bed.make(rng, cls, maxlist=2)
    made = [data]
    for x in range(12):
        made.append(hostile.mutate(rng, data, marks, bed)[1])
    made.append(data[:len(data) // 2])
    # an object that was read stays in use until the next collection: as many copies as reads in between
    ids = [[bed.add(cls, d) for d in made] for y in range(16)]
    f = libio.open_bytes(ctx.avb, bed.data(), 'ext')

    def grown(rounds, rep):
        """least growth of the allocated memory in a round of 6 collections, each after rep reads of every object"""
        sizes = []
        for rnd in range(rounds):
            for x in range(6):
                for y in range(rep):
                    for i in ids[y]:
                        try:
                            f.read_object(i)
                        except Exception:
                            pass
                        sys.stdout.seek(0)
                        sys.stdout.truncate()
                        ctx.count('leak_reads')
                collect()
            sizes.append(allocated())
        return min(b - a for a, b in zip(sizes, sizes[1:]))

    limit = 0
    for i in ids[0]:
        try:
            limit += wide(f.read_object(i))
        except Exception:
            pass
    limit = 14 + float(limit) / len(made)
    # the interpreter allocates in bursts, and keeps some bytes of each collection and two for each
    # object that is gone: what the reads keep grows in every round, and with the number of reads
    def per_read(rounds):
        return (grown(rounds, 16) - grown(rounds, 1)) / (6.0 * 15 * len(made))
    grown(2, 8)
    got = per_read(5)
    ctx.leaks = getattr(ctx, 'leaks', []) + ['%.1f of %.1f' % (got, limit)]
    if got > limit:
        again = per_read(12)
        if again > limit:
            raise Violation('%r: memory grows with every read: by %.1f bytes on average (%.1f before, limit %.1f)' % (cls, again, got, limit))
    collect()
    collect()
    b = ctx.mon.stats()
    if b[0] - b[1] > 50:
        raise Violation('%r: %d of %d buffers were never released' % (cls, b[0] - b[1], b[0]))


def sample(ctx, rng, n):
    fs = sorted(samples.files(), key=lambda p: -len(samples.data(p)))
    data = samples.data(fs[n % len(fs)])
    f = libio.open_bytes(ctx.avb, data, 'ext')
    for i, (cls, d, pos) in enumerate(fmt.parse_file(data, False).chunks):
        r, o = read(ctx, f, i + 1, d, '%s object %d' % (fs[n % len(fs)].split('/')[-1], i + 1))
        if r != 'accepted':
            raise Violation('object %d of %s is refused' % (i + 1, fs[n % len(fs)]))
    ctx.seen('sample', n)


# ------------------------------------------------------------- C++ driver
DRIVER = r'''
#include <cstdint>
#include <cstddef>
#include <exception>
#include <string>
#include <vector>
#include "%(core)s"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
static uint64_t total;
void *operator new(size_t n) { total += n; void *p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
typedef int (*fn_t)(Buffer *);
%(wraps)s
static const struct { const char *name; fn_t fn; } TABLE[] = { %(table)s };
static uint64_t state;
static uint32_t rnd() { state ^= state << 13; state ^= state >> 7; state ^= state << 17; return (uint32_t)(state >> 16); }
static const uint32_t W[] = {0, 1, 2, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0x10000, 0x1000000, 0x7fff, 0xffff, 0x8000};
static const uint8_t B[] = {0, 1, 2, 3, 4, 5, 0x20, 0x41, 0x42, 0x45, 0x46, 0x47, 0x48, 0x4c, 0x4d, 0x4f, 0x7f, 0x80, 0xfe, 0xff};
static uint64_t runs, ok, maxratio;
static uint8_t last[1 << 20]; static uint32_t lastlen; static const char *lastname = "";
static void report() {
    fprintf(stderr, "\nDRIVER-INPUT %%s ", lastname);
    for (uint32_t i = 0; i < lastlen && i < 400; i++) fprintf(stderr, "%%02x", last[i]);
    fprintf(stderr, "\n");
}
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void one(unsigned fn, const uint8_t *d, uint32_t n) {
    uint8_t *p = (uint8_t *)malloc(n);
    if (n) memcpy(p, d, n);
    if (n < sizeof(last)) { memcpy(last, d, n); lastlen = n; }
    lastname = TABLE[fn].name;
    Buffer b; memset(&b, 0xbe, sizeof(b));
    %(init)s
    total = 0;
    int r = -1;
    try { r = TABLE[fn].fn(&b); } catch (std::exception &e) {
        report(); fprintf(stderr, "DRIVER-EXCEPTION %%s\n", e.what()); abort(); }
    if (total > %(base)d + (uint64_t)%(per)d * n) { report(); fprintf(stderr, "DRIVER-ALLOC %%llu bytes for %%u\n", (unsigned long long)total, n); abort(); }
    if (total / (n + 64) > maxratio) maxratio = total / (n + 64);
    runs++;
    if (r >= 0) ok++;
    free(p);
}
int main(int argc, char **argv) {
    __sanitizer_set_death_callback(report);
    FILE *f = fopen(argv[1], "rb");
    uint64_t iters = strtoull(argv[2], 0, 10);
    state = strtoull(argv[3], 0, 10) * 0x9e3779b97f4a7c15ull + 88172645463325252ull;
    struct Rec { unsigned fn; std::vector<uint8_t> d; };
    std::vector<Rec> recs;
    uint32_t h[2];
    while (fread(h, 4, 2, f) == 2) { Rec r; r.fn = h[0]; r.d.resize(h[1]); if (h[1] && fread(&r.d[0], 1, h[1], f) != h[1]) return 3; recs.push_back(r); }
    fclose(f);
    if (recs.empty()) return 3;
    for (size_t i = 0; i < recs.size(); i++) {
        one(recs[i].fn, recs[i].d.data(), recs[i].d.size());
        for (uint32_t c = 0; c < recs[i].d.size() && c < 400; c++) one(recs[i].fn, recs[i].d.data(), c);
    }
    for (uint64_t i = 0; i < iters; i++) {
        const Rec &r = recs[rnd() %% recs.size()];
        std::vector<uint8_t> d = r.d;
        unsigned fn = rnd() %% 40 ? r.fn : rnd() %% (sizeof(TABLE) / sizeof(TABLE[0]));
        int m = 1 + (rnd() %% 4 == 0 ? rnd() %% 5 : 0);
        for (int k = 0; k < m; k++) {
            if (d.empty()) { d.push_back(rnd()); continue; }
            uint32_t p = rnd() %% d.size();
            switch (rnd() %% 8) {
            case 0: d[p] ^= 1 << rnd() %% 8; break;
            case 1: d[p] = B[rnd() %% sizeof(B)]; break;
            case 2: if (d.size() >= 4) { p = rnd() %% (d.size() - 3); uint32_t w = rnd() %% 3 ? W[rnd() %% 12] : (uint32_t)d.size() - p + rnd() %% 5 - 2; memcpy(&d[p], &w, 4); } break;
            case 3: if (d.size() >= 2) { p = rnd() %% (d.size() - 1); uint16_t w = rnd() %% 3 ? W[rnd() %% 12] : (uint32_t)d.size() - p + rnd() %% 5 - 2; memcpy(&d[p], &w, 2); } break;
            case 4: d.resize(p); break;
            case 5: d.insert(d.begin() + p, B[rnd() %% sizeof(B)]); break;
            case 6: d.erase(d.begin() + p); break;
            case 7: { const Rec &o = recs[rnd() %% recs.size()]; if (!o.d.empty()) { uint32_t q = rnd() %% o.d.size(); uint32_t n = 1 + rnd() %% 16; if (q + n > o.d.size()) n = o.d.size() - q; d.insert(d.begin() + p, o.d.begin() + q, o.d.begin() + q + n); } } break;
            }
        }
        one(fn, d.data(), d.size());
    }
    printf("runs=%%llu ok=%%llu maxratio=%%llu\n", (unsigned long long)runs, (unsigned long long)ok, (unsigned long long)maxratio);
    return 0;
}
'''
# which encoded kinds exercise which reader; unknown readers get everything
READER_KINDS = {'read_attributes': [b'ATTR'], 'read_sequence': [b'SEQU'], 'read_sourceclip': [b'SCLP'], 'read_paramclip': [b'PRCL'],
                'read_paramitem': [b'PRIT'], 'read_trackref': [b'TRKR'], 'read_filler': [b'FILL'], 'read_trackeffect': [b'TKFX'],
                'read_selector': [b'SLCT'], 'read_composition': [b'CMPO'], 'read_media_descriptor': [b'MDES'],
                'read_did_descriptor': [b'DIDD'], 'read_cdci_descriptor': [b'CDCI'], 'read_effectparamlist': [b'FXPS']}


def readers_source():
    """the C++ readers found in the source: (path, [(name, second argument)], initialisation of a Buffer, their wrappers, the table of them)"""
    core = os.path.join(REPO, 'src', 'avb', '_ext_core.cpp')
    try:
        with open(core) as f:
            src = f.read()
    except (IOError, OSError):
        return None
    sigs = re.findall(r'^(?:static |inline )*int (read_\w+)\(\s*Buffer \*\s*\w+,\s*(Properties \*|std::vector<AttrData> &|vector<AttrData> &)\s*\w+\)', src, re.M)
    sigs = [s for s in sigs if 'Properties' not in s[1] or s[0] != 'read_mob_id']
    fields = re.search(r'struct Buffer \{(.*?)\};', src, re.S)
    if not sigs or not fields:
        return None
    init = []
    for name, value in (('root', 'p'), ('ptr', 'p'), ('end', 'p + n'), ('error_message', '""'), ('overrun', 'false'), ('size', 'n')):
        if re.search(r'\b%s;' % name, fields.group(1)):
            init.append('b.%s = %s;' % (name, value))
    wraps, table = [], []
    for name, arg in sigs:
        if 'Properties' in arg:
            wraps.append('static int w_%s(Buffer *b) { Properties p = Properties(); return %s(b, &p); }' % (name, name))
        else:
            wraps.append('static int w_%s(Buffer *b) { std::vector<AttrData> v; return %s(b, v); }' % (name, name))
        table.append('{"%s", w_%s}' % (name, name))
    return core, [s[0] for s in sigs], ' '.join(init), '\n'.join(wraps), ', '.join(table)


def prepare(tier, workdir):
    """compiles the C++ driver from the readers found in the source; without one the sanitized
    Python build still decides the property"""
    found = readers_source()
    if not found:
        return None
    core, names, init, wraps, table = found
    text = DRIVER % dict(core=core, wraps=wraps, table=table, init=init, base=ALLOC_BASE, per=ALLOC_PER_BYTE)
    exe = os.path.join(workdir, 'driver')
    with open(exe + '.cpp', 'w') as f:
        f.write(text)
    r = subprocess.run(['g++', '-w', '-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                        '-D_GLIBCXX_ASSERTIONS', '-o', exe, exe + '.cpp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return dict(error=r.stdout.decode('utf-8', 'replace')[:1500])
    return dict(exe=exe, names=names)


def corpus(rng, names, each=12):
    """objects for the drivers, as records of reader, size and bytes"""
    bed = hostile.Bed(rng, 'little')
    recs = []
    for k, name in enumerate(names):
        for cls in READER_KINDS.get(name, hostile.PLAIN if name.count('_') == 1 else []):
            for x in range(each if name in READER_KINDS else 1):
                o, data, marks = bed.make(rng, cls, maxlist=rng.choice([1, 2, 4]))
                recs.append(struct.pack('<II', k, len(data)) + data)
    return recs


def driver(ctx, rng, n):
    extra = json.loads(os.environ.get('VF_EXTRA') or 'null')
    if not extra or 'exe' not in extra:
        ctx.count('driver_not_buildable')
        ctx.sample('no driver: %s' % (extra or {}).get('error'))
        return
    recs = corpus(rng, extra['names'])
    p = ctx.path('corpus')
    with open(p, 'wb') as f:
        f.write(b''.join(recs))
    iters = 600000 if ctx.tier == 'quick' else 8000000
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:abort_on_error=1:max_malloc_fill_size=65536:malloc_fill_byte=190:max_allocation_size_mb=2048:allocator_may_return_null=0',
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:abort_on_error=1')
    env.pop('LD_PRELOAD', None)
    r = subprocess.run([extra['exe'], p, str(iters), str(rng.getrandbits(32))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    err = r.stderr.decode('utf-8', 'replace')
    if r.returncode:
        raise Violation('the native readers under the C++ driver (exit %d):\n%s' % (r.returncode, err[-5000:]))
    m = dict(x.split('=') for x in r.stdout.decode().split())
    ctx.count('driver_runs', int(m['runs']))
    ctx.count('driver_accepted', int(m['ok']))
    ctx.seen('driver', n)
    ctx.sample('driver: %s readers, %s' % (len(extra['names']), r.stdout.decode().strip()))


WORKLOADS = {'hostile': hostile_case, 'every': every, 'exts': exts, 'large': large, 'leak': leak, 'sample': sample, 'driver': driver}
