# -*- coding: utf-8 -*-
"""Independent reference model of the AVB file format.

One declarative description per object kind (the ``d_XXXX`` functions) is
interpreted by three visitors:

  Enc   model object -> chunk bytes (little or big endian)
  Dec   chunk bytes  -> model object (strict: any deviation raises FormatError)
  Gen   rng          -> random model object (boundary biased)

The model never imports the library under test.  Values are plain Python:
int, float, bool, str, bytes, list, dict; a reference is ``Ref(id)`` or None; a
mob id is 32 raw bytes; an uuid is uuid.UUID; a timestamp is its u32 value; a
rate is the pair (mantissa, exponent).
"""
import struct
import uuid as _uuid
from fractions import Fraction


class FormatError(Exception):
    pass


class Ref(object):
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('Ref', self.id))

    def __repr__(self):
        return 'Ref(%r)' % (self.id,)


class Obj(object):
    """one object of the model: a class id (b'CMPO') and its fields"""
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f=None):
        self.cls = cls
        self.f = {} if f is None else f

    def __repr__(self):
        return '%s%r' % (self.cls, self.f)


class Graph(object):
    """objects by id + root id; ids are arbitrary hashables"""

    def __init__(self, objs=None, root=None):
        self.objs = objs if objs is not None else {}
        self.root = root


FMT = {'u8': 'B', 's8': 'b', 'u16': 'H', 's16': 'h', 'u32': 'I', 's32': 'i',
       'u64': 'Q', 's64': 'q', 'double': 'd'}
RANGE = {'u8': (0, 0xff), 's8': (-0x80, 0x7f), 'u16': (0, 0xffff),
         's16': (-0x8000, 0x7fff), 'u32': (0, 0xffffffff),
         's32': (-0x80000000, 0x7fffffff), 'u64': (0, 2**64 - 1),
         's64': (-2**63, 2**63 - 1)}

ABSENT = object()


# ----------------------------------------------------------------- encoder
class Enc(object):
    mode = 'enc'

    def __init__(self, obj, bo, refmap):
        self.b = bytearray()
        self.bo = bo
        self.e = '<' if bo == 'little' else '>'
        self.refmap = refmap
        self.o = obj.f
        self.cls = obj.cls
        # positions of interesting bytes, for mutation workloads
        self.marks = []          # (kind, start, end, path)
        self.path = obj.cls.decode('ascii')

    def _mark(self, kind, start):
        self.marks.append((kind, start, len(self.b), self.path))

    def raw(self, data):
        self.b += data

    def tag(self, v):
        s = len(self.b)
        self.b.append(v)
        self._mark('tag', s)

    def put(self, kind, v):
        s = len(self.b)
        if kind in FMT:
            try:
                self.b += struct.pack(self.e + FMT[kind], v)
            except struct.error:
                raise FormatError('%s out of range for %s' % (v, kind))
        elif kind == 'bool':
            self.b.append(1 if v else 0)
        elif kind in ('str', 'strz', 'strn', 'utf8'):
            if kind in ('strz', 'strn') and not v:
                self.put('u16', 0xffff)
            elif not v:
                self.put('u16', 0)
            else:
                data = (b'\x00\x00' + v.encode('utf-8') if kind == 'utf8'
                        else v.encode('mac_roman'))
                if len(data) >= 0xffff:
                    raise FormatError('string too long')
                self.put('u16', len(data))
                self.b += data
        elif kind == 'ref':
            self.put('u32', 0 if v is None else self.refmap[v.id])
        elif kind == 'rect':
            self.put('s16', 1)
            for x in v:
                self.put('s16', x)
        elif kind == 'color':
            self.put('s16', 1)
            for x in v:
                self.put('u16', x)
        elif kind == 'exp10':
            self.put('s32', v[0])
            self.put('s16', v[1])
        elif kind == 'datetime':
            self.put('u32', v)
        elif kind == 'rawuuid':
            self.b += v.bytes_le if self.bo == 'little' else v.bytes
        elif kind == 'fourcc':
            if len(v) != 4:
                raise FormatError('fourcc')
            self.b += v[::-1] if self.bo == 'little' else v
        elif kind == 'mobid':
            self.tag(65)
            self.put('s32', 12)
            self.b += v[:12]
            for i in range(12, 16):
                self.tag(68)
                self.b.append(v[i])
            d1, d2, d3 = struct.unpack('<IHH', v[16:24])
            self.tag(72)
            self.put('u32', d1)
            self.tag(70)
            self.put('u16', d2)
            self.tag(70)
            self.put('u16', d3)
            self.tag(65)
            self.put('s32', 8)
            self.b += v[24:32]
        else:
            raise AssertionError(kind)
        self._mark(kind, s)

    def field(self, kind, name):
        self.put(kind, self.o[name])

    def derived(self, kind, fn):
        self.put(kind, fn(self.o))

    def const(self, kind, v):
        self.put(kind, v)

    def blob(self, lenkind, name):
        self.put(lenkind, len(self.o[name]))
        s = len(self.b)
        self.b += self.o[name]
        self._mark('blob', s)

    def fixed(self, name, n):
        if len(self.o[name]) != n:
            raise FormatError('fixed')
        self.b += self.o[name]

    def group(self, name, kinds):
        """a list valued field of fixed shape, e.g. a rational"""
        v = self.o[name]
        for k, x in zip(kinds, v):
            self.put(k, x)

    def items(self, name, cnt, fn, count_of=None):
        v = self.o[name]
        s = len(self.b)
        self.put(cnt, len(v))
        self._mark('count', s)
        self.each(v, fn)

    def each(self, v, fn):
        keep = self.o
        for it in v:
            self.o = it
            fn(self)
        self.o = keep

    def reflist(self, name, cnt):
        v = self.o[name]
        s = len(self.b)
        self.put(cnt, len(v))
        self._mark('count', s)
        for r in v:
            self.put('ref', r)

    def exts(self, spec):
        for tagno, names, fn in spec:
            present = [n in self.o for n in names] if not callable(names) else [names(self.o)]
            if all(present):
                s = len(self.b)
                self.b.append(1)
                self._mark('tag', s)
                s = len(self.b)
                self.b.append(tagno)
                self._mark('exttag', s)
                fn(self)

    def has(self, name):
        return name in self.o


# ----------------------------------------------------------------- decoder
class Dec(object):
    mode = 'dec'

    def __init__(self, cls, data, bo):
        self.d = bytes(data)
        self.p = 0
        self.bo = bo
        self.e = '<' if bo == 'little' else '>'
        self.o = {}
        self.cls = cls

    def take(self, n):
        if n < 0 or self.p + n > len(self.d):
            raise FormatError('short chunk at %d' % self.p)
        r = self.d[self.p:self.p + n]
        self.p += n
        return r

    def tag(self, v):
        g = self.take(1)[0]
        if g != v:
            raise FormatError('tag %d != %d at %d' % (g, v, self.p - 1))

    def get(self, kind):
        if kind in FMT:
            n = struct.calcsize('<' + FMT[kind])
            return struct.unpack(self.e + FMT[kind], self.take(n))[0]
        if kind == 'bool':
            return self.take(1)[0] == 1
        if kind in ('str', 'strz', 'strn', 'utf8'):
            n = self.get('u16')
            if n == 0xffff:
                return None if kind == 'strn' else u''
            data = self.take(n).strip(b'\x00')
            try:
                s = data.decode('utf-8' if kind == 'utf8' else 'mac_roman')
            except UnicodeDecodeError:
                raise FormatError('bad string')
            if kind == 'strn' and not s:
                return None
            return s
        if kind == 'ref':
            v = self.get('u32')
            return Ref(v) if v else None
        if kind in ('rect', 'color'):
            if self.get('s16') != 1:
                raise FormatError('version')
            if kind == 'rect':
                return [self.get('s16') for i in range(4)]
            return [self.get('u16') for i in range(3)]
        if kind == 'exp10':
            return (self.get('s32'), self.get('s16'))
        if kind == 'datetime':
            return self.get('u32')
        if kind == 'rawuuid':
            b = self.take(16)
            return _uuid.UUID(bytes_le=b) if self.bo == 'little' else _uuid.UUID(bytes=b)
        if kind == 'fourcc':
            b = self.take(4)
            return b[::-1] if self.bo == 'little' else b
        if kind == 'mobid':
            self.tag(65)
            if self.get('s32') != 12:
                raise FormatError('label length')
            out = bytearray(self.take(12))
            for i in range(4):
                self.tag(68)
                out += self.take(1)
            self.tag(72)
            d1 = self.get('u32')
            self.tag(70)
            d2 = self.get('u16')
            self.tag(70)
            d3 = self.get('u16')
            self.tag(65)
            if self.get('s32') != 8:
                raise FormatError('data4 length')
            out += struct.pack('<IHH', d1, d2, d3)
            out += self.take(8)
            return bytes(out)
        raise AssertionError(kind)

    def field(self, kind, name):
        self.o[name] = self.get(kind)

    def derived(self, kind, fn):
        self.o.setdefault('_derived', []).append(self.get(kind))

    def const(self, kind, v):
        g = self.get(kind)
        if g != v:
            raise FormatError('const %r != %r' % (g, v))

    def raw(self, data):
        if self.take(len(data)) != data:
            raise FormatError('literal')

    def blob(self, lenkind, name):
        n = self.get(lenkind)
        self.o[name] = self.take(n)

    def fixed(self, name, n):
        self.o[name] = self.take(n)

    def group(self, name, kinds):
        self.o[name] = [self.get(k) for k in kinds]

    def items(self, name, cnt, fn, count_of=None):
        n = self.get(cnt)
        if n < 0 or n > len(self.d):
            raise FormatError('count')
        self.o[name] = []
        keep = self.o
        for i in range(n):
            it = {}
            keep[name].append(it)
            self.o = it
            fn(self)
        self.o = keep

    def each(self, v, fn):
        keep = self.o
        for it in v:
            self.o = it
            fn(self)
        self.o = keep

    def reflist(self, name, cnt):
        n = self.get(cnt)
        if n < 0 or n > len(self.d):
            raise FormatError('count')
        self.o[name] = [self.get('ref') for i in range(n)]

    def exts(self, spec):
        byno = dict((t, (n, fn)) for t, n, fn in spec)
        while self.p < len(self.d) and self.d[self.p] == 1:
            self.take(1)
            t = self.take(1)[0]
            if t not in byno:
                raise FormatError('unknown ext %d' % t)
            byno[t][1](self)

    def has(self, name):
        return name in self.o


# --------------------------------------------------------------- generator
MAC_CHARS = (u"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 "
             u" _-.,:;/\\'\"!?#%&()[]{}<>|@*+=~\t") * 3 + u"\n\r\x01\x1f\x7f"
# the upper half of the Mac Roman table
MAC_HIGH = (u"\u00c4\u00c5\u00c7\u00c9\u00d1\u00d6\u00dc\u00e1\u00e0\u00e2\u00e4\u00e3\u00e5\u00e7\u00e9\u00e8"
            u"\u00ea\u00eb\u00ed\u00ec\u00ee\u00ef\u00f1\u00f3\u00f2\u00f4\u00f6\u00f5\u00fa\u00f9\u00fb\u00fc"
            u"\u2020\u00b0\u00a2\u00a3\u00a7\u2022\u00b6\u00df\u00ae\u00a9\u2122\u00b4\u00a8\u2260\u00c6\u00d8"
            u"\u221e\u00b1\u2264\u2265\u00a5\u00b5\u2202\u2211\u220f\u03c0\u222b\u00aa\u00ba\u03a9\u00e6\u00f8"
            u"\u00bf\u00a1\u00ac\u221a\u0192\u2248\u2206\u00ab\u00bb\u2026\u00a0\u00c0\u00c3\u00d5\u0152\u0153"
            u"\u2013\u2014\u201c\u201d\u2018\u2019\u00f7\u25ca\u00ff\u0178\u2044\u20ac\u2039\u203a\ufb01\ufb02"
            u"\u2021\u00b7\u201a\u201e\u2030\u00c2\u00ca\u00c1\u00cb\u00c8\u00cd\u00ce\u00cf\u00cc\u00d3\u00d4"
            u"\uf8ff\u00d2\u00da\u00db\u00d9\u0131\u02c6\u02dc\u00af\u02d8\u02d9\u02da\u00b8\u02dd\u02db\u02c7")
MAC_CHARS += MAC_HIGH
UNI_CHARS = MAC_CHARS + u"\u65e5\u672c\u8a9e\u0416\u05d0\U0001f3ac\U0001f600\u0301\u0080\u07ff\u0800\ud7ff\ue000\uffff\ufeff\U00010000\U0010ffff" * 3


class Gen(object):
    """random model object.  refs are drawn by ``pick(field, cls, rng)``"""
    mode = 'gen'

    def __init__(self, cls, rng, pick, wild=True, maxlist=4, big=False, full=False):
        self.r = rng
        self.full = full          # all optional fields present
        self.cls = cls
        self.pick = pick
        self.o = {}
        self.wild = wild
        self.maxlist = maxlist
        self.big = big

    def tag(self, v):
        pass

    raw = tag

    def rint(self, lo, hi):
        r = self.r
        if not self.wild:
            return r.randint(max(lo, -100), min(hi, 1000))
        c = r.random()
        if c < 0.3:
            return r.randint(max(lo, -3), min(hi, 10))
        if c < 0.55:
            base = r.choice([lo, hi, 0, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff,
                             0x10000, 0x7fffffff, 0x80000000, 0xffffffff, -1, -128, -129,
                             -32768, -32769, 2**63 - 1, 2**63, -2**31])
            v = base + r.randint(-1, 1)
            return min(hi, max(lo, v))
        return r.randint(lo, hi)

    def rstr(self, chars, maxbytes=None):
        r = self.r
        c = r.random()
        if c < 0.08:
            return u''
        if self.big and c > 0.97:
            n = r.choice([255, 256, 257, 4096, 65000])
            ch = chars[:60]
        else:
            n = r.randint(1, 24)
            ch = chars
        return u''.join(r.choice(ch) for i in range(n))

    def rand(self, kind, name):
        r = self.r
        if kind in RANGE:
            return self.rint(*RANGE[kind])
        if kind == 'double':
            c = r.random()
            if c < 0.3:
                return float(r.randint(-1000, 1000))
            if c < 0.5:
                return r.choice([0.0, -0.0, 1.5, -2.25, 1e-300, 1e300, 0.1, 23.976,
                                 float('inf'), 5e-324])
            return struct.unpack('<d', struct.pack('<d', r.uniform(-1e6, 1e6)))[0]
        if kind == 'bool':
            return r.random() < 0.5
        if kind in ('str', 'strz'):
            return self.rstr(MAC_CHARS)
        if kind == 'strn':
            return self.rstr(MAC_CHARS) or None
        if kind == 'utf8':
            return self.rstr(UNI_CHARS)
        if kind == 'ref':
            return self.pick(name, self.cls, r)
        if kind == 'rect':
            return [self.rint(-0x8000, 0x7fff) for i in range(4)]
        if kind == 'color':
            return [self.rint(0, 0xffff) for i in range(3)]
        if kind == 'exp10':
            return rand_rate(r)
        if kind == 'datetime':
            if r.random() < 0.2:
                return r.choice([0, 1, 0x7fffffff, 0x80000000, 0xffffffff])
            return r.randint(0, 0xffffffff)
        if kind == 'rawuuid':
            return _uuid.UUID(int=r.getrandbits(128))
        if kind == 'fourcc':
            return bytes(bytearray(r.randint(32, 126) for i in range(4)))
        if kind == 'mobid':
            return rand_mobid(r)
        raise AssertionError(kind)

    def field(self, kind, name):
        self.o[name] = self.rand(kind, name)

    def derived(self, kind, fn):
        pass

    def const(self, kind, v):
        pass

    def rblob(self, maxn):
        r = self.r
        c = r.random()
        if c < 0.15:
            n = 0
        elif self.big and c > 0.95:
            n = min(maxn, r.choice([127, 128, 255, 256, 300, 5000, 32767]))
        else:
            n = r.randint(1, min(maxn, 40))
        return bytes(bytearray(r.getrandbits(8) for i in range(n)))

    def blob(self, lenkind, name):
        self.o[name] = self.rblob(RANGE[lenkind][1])

    def fixed(self, name, n):
        self.o[name] = bytes(bytearray(self.r.getrandbits(8) for i in range(n)))

    def group(self, name, kinds):
        self.o[name] = [self.rand(k, name) for k in kinds]

    def nitems(self):
        if self.big and self.r.random() < 0.05:
            return self.r.choice([40, 130, 260])
        return self.r.randint(0, self.maxlist)

    def items(self, name, cnt, fn, count_of=None):
        n = self.nitems() if count_of is None else count_of
        keep = self.o
        keep[name] = []
        for i in range(n):
            it = {}
            keep[name].append(it)
            self.o = it
            fn(self)
        self.o = keep

    def each(self, v, fn):
        keep = self.o
        for it in v:
            self.o = it
            fn(self)
        self.o = keep

    def reflist(self, name, cnt):
        n = self.nitems()
        self.o[name] = [self.pick(name, self.cls, self.r) for i in range(n)]
        if name not in NULL_IN_LIST:
            self.o[name] = [x for x in self.o[name] if x is not None]

    def exts(self, spec):
        always = self.r.random()
        for tagno, names, fn in spec:
            if callable(names):
                fn(self)
            elif self.full or always < 0.15 or (always < 0.9 and self.r.random() < 0.5) or tagno in ALWAYS.get(self.cls, ()):
                fn(self)

    def has(self, name):
        return name in self.o


# ext tags that the library always writes, resp. cannot do without
ALWAYS = {b'SCLP': (1,), b'CMPO': (2,), b'MSML': (2,), b'APOS': (1,), b'ABOB': (1,),
          b'DIDP': (1,), b'MPGP': (1,), b'MCMR': (1,), b'TMBC': (1,)}
# lists in which null references are generated
NULL_IN_LIST = ('components', 'descriptors', 'tracker_data', 'params', 'clips', '_refs')

REALISTIC_RATES = [(24, 0), (25, 0), (30, 0), (50, 0), (60, 0), (48, 0), (23976, -3), (2997, -2),
                   (59940, -3), (48000, 0), (44100, 0), (96000, 0), (11988, -2), (15, 0),
                   (12, 0), (100, 0), (14985, -3), (4795, -2), (47952, -3), (0, 0), (1, 0)]


def rand_rate(r):
    if r.random() < 0.6:
        return r.choice(REALISTIC_RATES)
    e = r.choice([0, 0, -1, -2, -3, -4])
    m = r.randint(1, 2**31 - 1 if e == 0 else 2 * 10**(5 - e))
    if r.random() < 0.1:
        m = -m
    while e < 0 and m % 10 == 0:
        m //= 10
        e += 1
    if Fraction(m) * Fraction(10)**e == Fraction(5994, 100):
        return (59940, -3)
    return (m, e)


def rand_mobid(r):
    b = bytearray(r.getrandbits(8) for i in range(32))
    c = r.random()
    if c < 0.6:
        b[0:13] = bytearray([6, 10, 0x2b, 0x34, 1, 1, 1, 5, 1, 1, 0x0f, 0x20, 0x13])
    elif c < 0.7:
        b[11] = 0
        b[24:30] = bytearray([6, 0x0e, 0x2b, 0x34, 0x7f, 0x7f])
    elif c < 0.75:
        b = bytearray(32)
    return bytes(b)


def lo32(m):
    if m is None:
        return 0
    return struct.unpack('<I', m[16:20])[0]


def hi32(m):
    if m is None:
        return 0
    d2, d3 = struct.unpack('<HH', m[20:24])
    return d2 + (d3 << 16)


# ------------------------------------------------------- format description
KINDS = {}


def kind(cid, pyname):
    def deco(fn):
        KINDS[cid] = (pyname, fn)
        return fn
    return deco


def mob_lo_hi(v):
    v.derived('u32', lambda o: lo32(o.get('mob_id')))
    v.derived('u32', lambda o: hi32(o.get('mob_id')))


def x(tt, knd, *names):
    """extension payload: for every name a type tag and a value"""
    def fn(v):
        for n in names:
            v.tag(tt)
            v.field(knd, n)
    return fn


def ext(tagno, tt, knd, *names):
    return (tagno, names, x(tt, knd, *names))


def sec(v, ver):
    v.tag(0x02)
    v.tag(ver)


def end(v):
    v.tag(0x03)


def setting(v):
    sec(v, 6)
    v.field('str', 'name')
    v.field('str', 'kind')
    v.field('s16', 'attr_count')
    v.field('s16', 'attr_type')
    v.field('ref', 'attributes')


@kind(b'BVst', 'BinViewSetting')
def d_BVst(v):
    setting(v)
    sec(v, 10)

    def col(v):
        v.field('str', 'title')
        v.field('s16', 'format')
        v.field('s16', 'type')
        v.field('bool', 'hidden')
    v.items('columns', 'u16', col)

    def fd(v):
        v.tag(69)
        v.field('s16', 'vcid_free_column_id')
        v.tag(71)
        if v.mode == 'gen':
            v.o['format_descriptor'] = v.rstr(UNI_CHARS)[:8000]
        elif v.mode == 'enc':
            b = v.o['format_descriptor'].encode('utf-8')
            v.put('s32', len(b))
            v.tag(76)
            v.put('s16', len(b) + 2)
            v.put('s16', 0)
            v.raw(b)
        else:
            n = v.get('s32')
            v.tag(76)
            v.take(4)
            try:
                v.o['format_descriptor'] = v.take(n).decode('utf-8')
            except UnicodeDecodeError:
                raise FormatError('utf8')

    def fds(v):
        v.tag(69)
        v.items('format_descriptors', 's16', fd)
    v.exts([(1, ('format_descriptors',), fds)])
    end(v)


def abin(v):
    v.tag(0x02)
    if v.mode == 'gen':
        v.o['large_bin'] = v.r.random() < 0.3
        large = v.o['large_bin']
    elif v.mode == 'enc':
        large = v.o['large_bin'] or len(v.o['items']) > 0xffff
        v.tag(0x0f if large else 0x0e)
    else:
        ver = v.take(1)[0]
        if ver not in (0x0e, 0x0f):
            raise FormatError('bin version')
        large = ver == 0x0f
        v.o['large_bin'] = large
    v.field('ref', 'view_setting')
    v.field('u64', 'uid')

    def item(v):
        v.field('ref', 'mob')
        v.field('s16', 'x')
        v.field('s16', 'y')
        v.field('s32', 'keyframe')
        v.field('bool', 'user_placed')
    v.items('items', 'u32' if large else 'u16', item)
    v.field('s32', 'display_mask')
    v.field('s16', 'display_mode')
    v.field('bool', 'sifted')

    def sift(v):
        v.field('s16', 'method')
        v.field('str', 'string')
        v.field('str', 'column')
    if v.mode != 'enc':
        v.o['sifted_settings'] = [{} for i in range(6)]
    v.each(v.o['sifted_settings'], sift)

    def sc(v):
        v.field('u8', 'direction')
        v.field('str', 'column')
    v.items('sort_columns', 's16', sc)
    v.field('s16', 'mac_font')
    v.field('s16', 'mac_font_size')
    v.field('s16', 'mac_image_scale')
    v.field('rect', 'home_rect')
    v.field('color', 'background_color')
    v.field('color', 'forground_color')
    v.field('s16', 'ql_image_scale')
    v.field('ref', 'attributes')
    v.field('bool', 'was_iconic')


@kind(b'ABIN', 'Bin')
def d_ABIN(v):
    abin(v)
    end(v)


@kind(b'BINF', 'BinFirst')
def d_BINF(v):
    abin(v)
    sec(v, 1)
    v.field('s32', 'unknown_s32')
    end(v)


@kind(b'ATTR', 'Attributes')
def d_ATTR(v):
    sec(v, 1)
    if v.mode == 'gen':
        used = set()
        v.o['_items'] = []
        for i in range(v.nitems()):
            key = v.rstr(MAC_CHARS)
            if key in used:
                continue
            used.add(key)
            t = v.r.randint(1, 4)
            if t == 1:
                val = v.rint(*RANGE['s32'])
            elif t == 2:
                val = v.rstr(MAC_CHARS)
            elif t == 3:
                val = v.pick('_attr', v.cls, v.r)
            else:
                val = v.rblob(1 << 20)
            v.o['_items'].append([key, t, val])
    elif v.mode == 'enc':
        s = len(v.b)
        v.put('u32', len(v.o['_items']))
        v._mark('count', s)
        for key, t, val in v.o['_items']:
            s = len(v.b)
            v.put('u32', t)
            v._mark('attrtype', s)
            v.put('str', key)
            if t == 1:
                v.put('s32', val)
            elif t == 2:
                v.put('str', val)
            elif t == 3:
                v.put('ref', val)
            elif t == 4:
                v.put('u32', len(val))
                v.raw(val)
            else:
                raise FormatError('attr type')
    else:
        n = v.get('u32')
        if n > len(v.d):
            raise FormatError('count')
        v.o['_items'] = []
        for i in range(n):
            t = v.get('u32')
            key = v.get('str')
            if t == 1:
                val = v.get('s32')
            elif t == 2:
                val = v.get('str')
            elif t == 3:
                val = v.get('ref')
            elif t == 4:
                val = v.take(v.get('u32'))
            else:
                raise FormatError('attr type %d' % t)
            v.o['_items'].append([key, t, val])
    end(v)


@kind(b'PRLS', 'ParameterList')
def d_PRLS(v):
    sec(v, 1)
    v.reflist('_refs', 's32')
    end(v)


@kind(b'TMCS', 'TimeCrumbList')
def d_TMCS(v):
    sec(v, 1)
    v.reflist('_refs', 's16')
    end(v)


def comp(v):
    sec(v, 3)
    v.field('ref', 'left_bob')
    v.field('ref', 'right_bob')
    v.field('s16', 'media_kind_id')
    v.field('exp10', 'edit_rate')
    v.field('strn', 'name')
    v.field('strn', 'effect_id')
    v.field('ref', 'attributes')
    v.field('ref', 'session_attrs')
    v.field('ref', 'precomputed')
    v.exts([ext(1, 72, 'ref', 'param_list')])


@kind(b'SEQU', 'Sequence')
def d_SEQU(v):
    comp(v)
    sec(v, 3)
    v.reflist('components', 'u32')
    end(v)


def clip(v):
    comp(v)
    sec(v, 1)
    v.field('u32', 'length')


@kind(b'SCLP', 'SourceClip')
def d_SCLP(v):
    clip(v)
    sec(v, 3)
    mob_lo_hi(v)
    v.field('s16', 'track_id')
    v.field('s32', 'start_time')
    v.exts([(1, ('mob_id',), lambda v: v.field('mobid', 'mob_id'))])
    end(v)


@kind(b'TCCP', 'Timecode')
def d_TCCP(v):
    clip(v)
    sec(v, 1)
    v.field('u32', 'flags')
    v.field('u16', 'fps')
    v.const('u32', 0)
    v.const('u16', 0)
    v.field('u32', 'start')
    end(v)


@kind(b'ECCP', 'Edgecode')
def d_ECCP(v):
    clip(v)
    sec(v, 1)
    v.fixed('header', 8)
    v.field('u8', 'film_kind')
    v.field('u8', 'code_format')
    v.field('u16', 'base_perf')
    v.const('u32', 0)
    v.field('s32', 'start_ec')
    end(v)


@kind(b'TRKR', 'TrackRef')
def d_TRKR(v):
    clip(v)
    sec(v, 1)
    v.field('s16', 'relative_scope')
    v.field('s16', 'relative_track')
    end(v)


@kind(b'PRCL', 'ParamClip')
def d_PRCL(v):
    clip(v)
    sec(v, 1)
    v.field('s32', 'interp_kind')
    if v.mode == 'gen':
        v.o['value_type'] = v.r.choice([1, 1, 2, 2, 4])
    else:
        v.field('s16', 'value_type')
    vt = v.o['value_type']
    if vt not in (1, 2, 4):
        raise FormatError('value type')
    k = {1: 's32', 2: 'double', 4: 'ref'}[vt]

    def pp(v):
        v.field('s16', 'code')
        if v.mode == 'gen':
            v.o['type'] = v.r.choice([1, 2])
        else:
            v.field('s16', 'type')
        if v.o['type'] not in (1, 2):
            raise FormatError('pp type')
        v.field('s32' if v.o['type'] == 1 else 'double', 'value')

    def cp(v):
        v.group('offset', ['s32', 's32'])
        v.field('s32', 'timescale')
        v.field(k, 'value')
        v.items('pp', 's16', pp)
    v.items('control_points', 's32', cp)
    v.exts([ext(1, 71, 's32', 'extrap_kind'), ext(2, 71, 's32', 'fields')])
    end(v)


@kind(b'CTRL', 'ControlClip')
def d_CTRL(v):
    clip(v)
    sec(v, 3)
    v.field('s32', 'interp_kind')

    def pp(v):
        v.field('s16', 'code')
        v.group('value', ['s32', 's32'])

    def cp(v):
        v.group('offset', ['s32', 's32'])
        v.field('s32', 'time_scale')
        v.const('bool', True)
        v.group('value', ['s32', 's32'])
        v.items('pp', 's16', pp)
    v.items('control_points', 's32', cp)
    end(v)


@kind(b'FILL', 'Filler')
def d_FILL(v):
    clip(v)
    sec(v, 1)
    end(v)


TRACK_BITS = [('index', 0, 's16'), ('attributes', 1, 'ref'), ('session_attr', 9, 'ref'),
              ('component', 2, 'ref'), ('filler_proxy', 3, 'ref'), ('bob_data', 4, 'ref'),
              ('control_code', 5, 's16'), ('control_sub_code', 6, 's16'),
              ('start_pos', 7, 's32'), ('read_only', 8, 'bool')]


def trkg(v):
    comp(v)
    sec(v, 8)
    v.field('u8', 'mc_mode')
    v.field('s32', 'length')
    v.field('s32', 'num_scalars')

    def track(v):
        if v.mode == 'gen':
            for n, bit, k in TRACK_BITS:
                if v.r.random() < 0.5:
                    v.field(k, n)
            return
        if v.mode == 'enc':
            flags = sum(1 << bit for n, bit, k in TRACK_BITS if n in v.o)
            s = len(v.b)
            v.put('u16', flags)
            v._mark('trackflags', s)
        else:
            flags = v.get('u16')
            if flags & 0xfc00:
                raise FormatError('track flags')
        for n, bit, k in TRACK_BITS:
            if flags & (1 << bit):
                v.field(k, n)
    v.items('tracks', 's32', track, max(1, v.nitems()) if v.mode == 'gen' and v.cls == b'SLCT' else None)

    def locks(v):
        def lock(v):
            v.tag(69)
            v.field('s16', 'lock_number')
        v.each(v.o['tracks'], lock)
    if v.mode == 'gen':
        if v.o['tracks']:
            locks(v)
    else:
        v.exts([(1, lambda o: bool(o['tracks']) and 'lock_number' in o['tracks'][0], locks)])


def info(v):
    v.field('s32', 'left_length')
    v.field('s32', 'right_length')
    v.field('s16', 'info_version')
    v.field('s32', 'info_current')
    v.field('s32', 'info_smooth')
    v.field('s16', 'info_color_item')
    v.field('s16', 'info_quality')
    v.field('s8', 'info_is_reversed')
    v.field('bool', 'info_aspect_on')
    v.field('ref', 'keyframes')
    v.field('bool', 'info_force_software')
    v.field('bool', 'info_never_hardware')


def tkfx(v):
    trkg(v)
    sec(v, 6)
    info(v)
    v.exts([ext(2, 72, 'ref', 'trackman')])


@kind(b'TKFX', 'TrackEffect')
def d_TKFX(v):
    tkfx(v)
    end(v)


@kind(b'PVOL', 'PanVolumeEffect')
def d_PVOL(v):
    tkfx(v)
    sec(v, 5)
    v.field('s32', 'level')
    v.field('s32', 'pan')
    v.field('bool', 'suppress_validation')
    v.field('bool', 'level_set')
    v.field('bool', 'pan_set')
    v.exts([ext(1, 71, 's32', 'supports_seperate_gain'), ext(2, 71, 's32', 'is_trim_gain_effect')])
    end(v)


@kind(b'ASPI', 'AudioSuitePluginEffect')
def d_ASPI(v):
    tkfx(v)
    sec(v, 1)

    def chunk(v):
        if v.mode == 'gen':
            n = None
            v.o['data'] = v.rblob(1 << 20)
        elif v.mode == 'enc':
            v.put('s32', len(v.o['data']))
        else:
            n = v.get('s32')
        v.field('s32', 'version')
        v.field('u32', 'manufacturer_id')
        v.field('u32', 'product_id')
        v.field('u32', 'plugin_id')
        v.field('u32', 'chunk_id')
        v.field('str', 'name')
        if v.mode == 'enc':
            v.raw(v.o['data'])
        elif v.mode == 'dec':
            v.o['data'] = v.take(n)

    def plugin(v):
        v.field('str', 'name')
        v.field('u32', 'manufacturer_id')
        v.field('u32', 'product_id')
        v.field('u32', 'plugin_id')
        v.items('chunks', 's32', chunk)
    v.items('plugins', 's32', plugin, 1)
    if v.mode == 'dec' and len(v.o['plugins']) != 1:
        raise FormatError('plugins')

    def lohi(v):
        v.tag(71)
        v.derived('u32', lambda o: lo32(o['mob_id']))
        v.tag(71)
        v.derived('u32', lambda o: hi32(o['mob_id']))

    def preset(v):
        v.tag(72)
        if v.mode == 'gen':
            v.o['preset_path'] = v.rblob(1 << 20)
        elif v.mode == 'enc':
            n = len(v.o['preset_path'])
            v.put('u32', n)
            if n:
                v.tag(65)
                v.put('u32', n)
                v.raw(v.o['preset_path'])
        else:
            n = v.get('u32')
            v.o['preset_path'] = b''
            if n:
                v.tag(65)
                if v.get('u32') != n:
                    raise FormatError('preset length')
                v.o['preset_path'] = v.take(n)
    spec = [(8, ('mob_id',), lambda v: v.field('mobid', 'mob_id')),
            ext(2, 77, 's64', 'mark_in'), ext(3, 77, 's64', 'mark_out'),
            ext(4, 72, 's32', 'tracks_to_affect'), ext(5, 71, 's32', 'rendering_mode'),
            ext(6, 71, 's32', 'padding_secs'), (9, ('preset_path',), preset)]
    if v.mode != 'gen':
        spec.insert(0, (1, ('mob_id',), lohi))
    v.exts(spec)
    end(v)


@kind(b'EQMB', 'EqualizerMultiBand')
def d_EQMB(v):
    tkfx(v)
    sec(v, 5)

    def band(v):
        for n in ('type', 'freq', 'gain', 'q'):
            v.field('s32', n)
        v.field('bool', 'enable')
    v.items('bands', 's32', band)
    v.field('bool', 'effect_enable')
    v.field('str', 'filter_name')
    end(v)


def warp(v):
    trkg(v)
    sec(v, 2)
    v.field('s32', 'phase_offset')


@kind(b'MASK', 'CaptureMask')
def d_MASK(v):
    warp(v)
    sec(v, 1)
    v.field('bool', 'is_double')
    v.field('u32', 'mask_bits')
    end(v)


@kind(b'STRB', 'StrobeEffect')
def d_STRB(v):
    warp(v)
    sec(v, 1)
    v.field('s32', 'strobe_value')
    end(v)


@kind(b'SPED', 'MotionEffect')
def d_SPED(v):
    warp(v)
    sec(v, 3)
    v.group('speed_ratio', ['s32', 's32'])
    v.exts([ext(1, 75, 'double', 'offset_adjust'), ext(2, 72, 'ref', 'source_param_list'),
            ext(3, 66, 'bool', 'new_source_calculation')])
    end(v)


@kind(b'REPT', 'Repeat')
def d_REPT(v):
    warp(v)
    sec(v, 1)
    end(v)


@kind(b'RSET', 'EssenceGroup')
def d_RSET(v):
    trkg(v)
    sec(v, 1)
    v.exts([ext(1, 71, 's32', 'rep_set_type')])
    end(v)


@kind(b'TNFX', 'TransitionEffect')
def d_TNFX(v):
    trkg(v)
    sec(v, 1)
    v.field('s32', 'cutpoint')
    sec(v, 5)
    info(v)
    v.exts([ext(1, 72, 'ref', 'trackman')])
    end(v)


@kind(b'SLCT', 'Selector')
def d_SLCT(v):
    trkg(v)
    sec(v, 1)
    v.field('bool', 'is_ganged')
    if v.mode == 'gen':
        v.o['selected'] = v.r.randrange(len(v.o['tracks']))
    else:
        v.field('u16', 'selected')
        if v.mode == 'dec' and v.o['selected'] >= len(v.o['tracks']):
            raise FormatError('selected')
    end(v)


@kind(b'CMPO', 'Composition')
def d_CMPO(v):
    trkg(v)
    sec(v, 2)
    mob_lo_hi(v)
    v.field('datetime', 'last_modified')
    if v.mode == 'gen':
        v.o['mob_type_id'] = v.r.choice([1, 2, 3])
    else:
        v.field('u8', 'mob_type_id')
    v.field('s32', 'usage_code')
    v.field('ref', 'descriptor')
    v.exts([ext(1, 71, 'datetime', 'creation_time'),
            (2, ('mob_id',), lambda v: v.field('mobid', 'mob_id'))])
    end(v)


def locator(v):
    sec(v, 2)
    v.field('str', 'path')
    v.exts([ext(1, 76, 'str', 'path_posix'), ext(2, 76, 'utf8', 'path_utf8'),
            ext(3, 76, 'utf8', 'path2_utf8')])
    end(v)


@kind(b'FILE', 'MacFileLocator')
def d_FILE(v):
    locator(v)


@kind(b'WINF', 'WinFileLocator')
def d_WINF(v):
    locator(v)


@kind(b'URLL', 'URLLocator')
def d_URLL(v):
    end(v)


@kind(b'GRFX', 'GraphicEffect')
def d_GRFX(v):
    sec(v, 1)
    v.blob('s32', 'pict_data')
    end(v)


@kind(b'SHLP', 'ShapeList')
def d_SHLP(v):
    sec(v, 1)
    v.blob('s32', 'shape_data')
    end(v)


@kind(b'CCFX', 'ColorCorrectionEffect')
def d_CCFX(v):
    sec(v, 1)
    v.blob('s16', 'color_correction')
    end(v)


@kind(b'FXPS', 'EffectParamList')
def d_FXPS(v):
    sec(v, 0x12)
    v.field('s32', 'orig_length')
    v.field('s32', 'window_offset')

    def par(v):
        for n in ('percent_time', 'level', 'pos_x', 'floor_x', 'ceil_x', 'pos_y', 'floor_y',
                  'ceil_y', 'scale_x', 'scale_y', 'crop_left', 'crop_right', 'crop_top',
                  'crop_bottom'):
            v.field('s32', n)
        v.group('box', ['s32'] * 4)
        for n in ('box_xscale', 'box_yscale', 'box_xpos', 'box_ypos'):
            v.field('bool', n)
        v.field('s32', 'border_width')
        v.field('s32', 'border_soft')
        for n in ('splill_gain2', 'splill_gain', 'splill_soft2', 'splill_soft'):
            v.field('s16', n)
        v.field('s8', 'enable_key_flags')
        if v.mode == 'gen':
            v.o['colors'] = [v.rint(*RANGE['s32']) for i in range(v.nitems())]
        elif v.mode == 'enc':
            s = len(v.b)
            v.put('s32', len(v.o['colors']))
            v._mark('count', s)
            for c in v.o['colors']:
                v.put('s32', c)
        else:
            n = v.get('s32')
            if n < 0 or n > len(v.d):
                raise FormatError('count')
            v.o['colors'] = [v.get('s32') for i in range(n)]
        v.blob('s32', 'user_param')
        v.field('bool', 'selected')
    # the count comes before keyframe_size, the list after it
    if v.mode == 'gen':
        v.field('s32', 'keyframe_size')
        v.items('parameters', 's32', par)
    elif v.mode == 'enc':
        s = len(v.b)
        v.put('s32', len(v.o['parameters']))
        v._mark('count', s)
        v.field('s32', 'keyframe_size')
        v.each(v.o['parameters'], par)
    else:
        n = v.get('s32')
        if n < 0 or n > len(v.d):
            raise FormatError('count')
        v.field('s32', 'keyframe_size')
        v.o['parameters'] = [{} for i in range(n)]
        v.each(v.o['parameters'], par)
    end(v)


@kind(b'AVUP', 'CFUserParam')
def d_AVUP(v):
    sec(v, 1)
    v.const('s16', 0x4949)
    if v.mode != 'enc':
        v.o['byte_order'] = 0x4949
    v.field('rawuuid', 'uuid')
    if v.mode == 'gen':
        v.o['data'] = v.rblob(1 << 20)
    elif v.mode == 'enc':
        v.put('s32', len(v.o['data']) + 4)
        v.put('s32', len(v.o['data']))
        v.raw(v.o['data'])
    else:
        a = v.get('s32')
        b = v.get('s32')
        if b != a - 4:
            raise FormatError('size')
        v.o['data'] = v.take(b)
    end(v)


@kind(b'PRIT', 'ParameterItem')
def d_PRIT(v):
    sec(v, 2)
    v.field('rawuuid', 'uuid')
    if v.mode == 'gen':
        v.o['value_type'] = v.r.choice([1, 2, 4])
    else:
        v.field('s16', 'value_type')
    vt = v.o['value_type']
    if vt not in (1, 2, 4):
        raise FormatError('value type')
    v.field({1: 's32', 2: 'double', 4: 'ref'}[vt], 'value')
    v.field('strz', 'name')
    v.field('bool', 'enable')
    v.field('ref', 'control_track')
    v.exts([ext(1, 66, 'bool', 'contribs_to_sig')])
    end(v)


@kind(b'MSML', 'MSMLocator')
def d_MSML(v):
    sec(v, 2)
    mob_lo_hi(v)
    v.field('str', 'last_known_volume')
    v.exts([ext(1, 71, 's32', 'domain_type'),
            (2, ('mob_id',), lambda v: v.field('mobid', 'mob_id')),
            ext(3, 76, 'utf8', 'last_known_volume_utf8')])
    end(v)


def apos(v):
    sec(v, 1)
    mob_lo_hi(v)
    v.exts([(1, ('mob_id',), lambda v: v.field('mobid', 'mob_id'))])


def abob(v):
    apos(v)
    sec(v, 1)
    v.field('s32', 'sample_num')
    v.field('s32', 'length')
    v.field('s16', 'track_type')
    v.field('s16', 'track_index')


def didp(v):
    abob(v)
    sec(v, 1)
    v.field('s32', 'strip')
    v.field('u64', 'offset')
    v.field('u64', 'byte_length')
    v.field('bool', 'spos_invalid')


@kind(b'APOS', 'Position')
def d_APOS(v):
    apos(v)
    end(v)


@kind(b'ABOB', 'BOBPosition')
def d_ABOB(v):
    abob(v)
    end(v)


@kind(b'DIDP', 'DIDPosition')
def d_DIDP(v):
    didp(v)
    end(v)


@kind(b'MPGP', 'MPGPosition')
def d_MPGP(v):
    didp(v)
    sec(v, 1)
    v.field('s16', 'trailing_discards')
    v.field('bool', 'need_seq_hdr')
    if v.mode == 'gen':
        v.o['fields'] = [[v.rint(0, 255), v.rint(*RANGE['u32'])] for i in range(v.nitems())]
    elif v.mode == 'enc':
        n = len(v.o['fields'])
        s = len(v.b)
        v.put('s16', n)
        v._mark('count', s)
        if n:
            v.put('s16', 2 * n)
        for t, ln in v.o['fields']:
            v.put('u8', t)
            v.put('u32', ln)
    else:
        n = v.get('s16')
        v.o['fields'] = []
        if n > 0:
            v.get('s16')
        for i in range(n):
            v.o['fields'].append([v.get('u8'), v.get('u32')])
    end(v)


@kind(b'MCBR', 'BinRef')
def d_MCBR(v):
    sec(v, 1)
    v.field('s32', 'uid_high')
    v.field('s32', 'uid_low')
    v.field('str', 'name')
    v.exts([ext(1, 76, 'utf8', 'name_utf8')])
    end(v)


def mcmr(v):
    sec(v, 1)
    mob_lo_hi(v)
    v.field('s32', 'position')
    v.exts([(1, ('mob_id',), lambda v: v.field('mobid', 'mob_id'))])


@kind(b'MCMR', 'MobRef')
def d_MCMR(v):
    mcmr(v)
    end(v)


@kind(b'TMBC', 'Marker')
def d_TMBC(v):
    mcmr(v)
    sec(v, 3)
    v.field('s32', 'comp_offset')
    v.field('ref', 'attributes')
    v.const('s16', 1)
    v.group('color', ['u16'] * 3)
    v.exts([ext(1, 66, 'bool', 'handled_codes')])
    end(v)


@kind(b'TKMN', 'TrackerManager')
def d_TKMN(v):
    sec(v, 1)
    v.field('ref', 'data_slots')
    v.field('ref', 'param_slots')
    end(v)


@kind(b'TKDS', 'TrackerDataSlot')
def d_TKDS(v):
    sec(v, 1)
    v.reflist('tracker_data', 's32')
    v.exts([ext(1, 66, 'bool', 'track_fg')])
    end(v)


@kind(b'TKPS', 'TrackerParameterSlot')
def d_TKPS(v):
    sec(v, 1)
    v.blob('s16', 'settings')
    v.reflist('params', 's32')
    end(v)


@kind(b'TKDA', 'TrackerData')
def d_TKDA(v):
    sec(v, 1)
    v.blob('s16', 'settings')
    v.field('u32', 'clip_version')
    v.reflist('clips', 's16')
    v.exts([ext(1, 72, 'u32', 'offset_tracking'), ext(2, 72, 'u32', 'smoothing'),
            ext(3, 72, 'u32', 'jitter_removal'), ext(4, 75, 'double', 'filter_amount'),
            ext(5, 72, 'ref', 'clip5'), ext(6, 72, 'ref', 'clip6')])
    end(v)


@kind(b'TKPA', 'TrackerParameter')
def d_TKPA(v):
    sec(v, 1)
    v.blob('s16', 'settings')
    end(v)


def mdes(v):
    sec(v, 3)
    v.field('u8', 'mob_kind')
    v.field('ref', 'locator')
    v.field('bool', 'intermediate')
    v.field('ref', 'physical_media')

    def xuuid(v):
        v.tag(65)
        v.const('s32', 16)
        v.field('rawuuid', 'uuid')

    def wchar(v):
        v.tag(65)
        v.blob('s32', 'wchar')
    v.exts([(1, ('uuid',), xuuid), (2, ('wchar',), wchar), ext(3, 72, 'ref', 'attributes')])


@kind(b'MDES', 'MediaDescriptor')
def d_MDES(v):
    mdes(v)
    end(v)


@kind(b'MDTP', 'TapeDescriptor')
def d_MDTP(v):
    mdes(v)
    sec(v, 2)
    v.field('s16', 'cframe')
    end(v)


@kind(b'MDFM', 'FilmDescriptor')
def d_MDFM(v):
    mdes(v)
    sec(v, 1)
    end(v)


@kind(b'MDNG', 'NagraDescriptor')
def d_MDNG(v):
    mdes(v)
    sec(v, 1)
    end(v)


def mdfl(v):
    mdes(v)
    sec(v, 3)
    v.field('exp10', 'edit_rate')
    v.field('s32', 'length')
    v.field('s16', 'is_omfi')
    v.field('s32', 'data_offset')


@kind(b'MDFL', 'MediaFileDescriptor')
def d_MDFL(v):
    mdfl(v)
    end(v)


@kind(b'MULD', 'MultiDescriptor')
def d_MULD(v):
    mdfl(v)
    sec(v, 1)
    v.reflist('descriptors', 's32')
    end(v)


def summary(v, magic, e):
    v.raw(magic)
    if v.mode == 'gen':
        v.o['summary'] = v.rblob(1 << 20)
    elif v.mode == 'enc':
        v.raw(struct.pack(e + 'I', len(v.o['summary'])))
        v.raw(v.o['summary'])
    else:
        v.o['summary'] = v.take(struct.unpack(e + 'I', v.take(4))[0])


@kind(b'WAVE', 'WaveDescriptor')
def d_WAVE(v):
    mdfl(v)
    sec(v, 1)
    summary(v, b'RIFF', '<')
    end(v)


@kind(b'AIFC', 'AIFCDescriptor')
def d_AIFC(v):
    mdfl(v)
    sec(v, 1)
    summary(v, b'FORM', '>')
    v.exts([ext(1, 71, 's32', 'data_pos')])
    end(v)


def audio(v):
    v.field('u16', 'channels')
    v.field('u16', 'quantization_bits')
    v.field('exp10', 'sample_rate')
    v.field('bool', 'locked')
    v.field('s16', 'audio_ref_level')
    v.field('s32', 'electro_spatial_formulation')
    v.field('u16', 'dial_norm')
    v.field('u32', 'coding_format')


@kind(b'PCMA', 'PCMADescriptor')
def d_PCMA(v):
    mdfl(v)
    sec(v, 1)
    audio(v)
    v.field('u32', 'block_align')
    v.field('u16', 'sequence_offset')
    v.field('u32', 'average_bps')
    v.field('bool', 'has_peak_envelope_data')
    for n in ('peak_envelope_version', 'peak_envelope_format', 'points_per_peak_value',
              'peak_envelope_block_size', 'peak_channel_count', 'peak_frame_count'):
        v.field('s32', n)
    v.field('u64', 'peak_of_peaks_offset')
    v.field('s32', 'peak_envelope_timestamp')
    v.exts([ext(1, 77, 's64', 'ebu_timestamp'), ext(3, 76, 'str', 'timecode_framerate')])
    end(v)


@kind(b'MPGA', 'MPGADescriptor')
def d_MPGA(v):
    mdfl(v)
    sec(v, 1)
    audio(v)
    v.field('u32', 'bit_rate')
    v.exts([ext(1, 77, 'u64', 'sub_frame_alignment'), ext(2, 77, 'u64', 'origin')])
    end(v)


def did(v):
    mdfl(v)
    sec(v, 2)
    for n in ('stored_height', 'stored_width', 'sampled_height', 'sampled_width',
              'sampled_x_offset', 'sampled_y_offset', 'display_height', 'display_width',
              'display_x_offset', 'display_y_offset'):
        v.field('s32', n)
    v.field('s16', 'frame_layout')
    v.group('aspect_ratio', ['s32', 's32'])
    if v.mode == 'gen':
        v.o['line_map'] = [v.rint(*RANGE['s32']) for i in range(v.nitems())]
    elif v.mode == 'enc':
        v.put('s32', 4 * len(v.o['line_map']))
        for i in v.o['line_map']:
            v.put('s32', i)
    else:
        n = v.get('s32')
        if n % 4 or n < 0 or n > len(v.d):
            raise FormatError('line map')
        v.o['line_map'] = [v.get('s32') for i in range(n // 4)]
    v.field('s32', 'alpha_transparency')
    v.field('bool', 'uniformness')
    v.field('s32', 'did_image_size')
    v.field('ref', 'next_did_desc')
    v.field('fourcc', 'compress_method')
    v.field('s32', 'resolution_id')
    v.field('s32', 'image_alignment_factor')

    def box(v, name):
        if v.mode == 'gen':
            v.o[name] = [[v.rint(*RANGE['s32']) for i in range(2)] for j in range(4)]
        elif v.mode == 'enc':
            for p in v.o[name]:
                for c in p:
                    v.tag(71)
                    v.put('s32', c)
        else:
            v.o[name] = []
            for j in range(4):
                p = []
                for i in range(2):
                    v.tag(71)
                    p.append(v.get('s32'))
                v.o[name].append(p)

    def boxes(v):
        for n in ('valid_box', 'essence_box', 'source_box'):
            box(v, n)

    def framing(v):
        box(v, 'framing_box')
        v.tag(71)
        v.field('s32', 'reformatting_option')
    v.exts([ext(1, 69, 's16', 'frame_index_byte_order'), ext(2, 71, 's32', 'frame_sample_size'),
            ext(3, 71, 's32', 'first_frame_offset'),
            ext(4, 71, 's32', 'client_fill_start', 'client_fill_end'),
            ext(5, 71, 's32', 'offset_to_rle_frame_index'), ext(6, 71, 's32', 'frame_start_offset'),
            (8, ('valid_box', 'essence_box', 'source_box'), boxes),
            (9, ('framing_box', 'reformatting_option'), framing),
            ext(10, 80, 'rawuuid', 'transfer_characteristic'),
            ext(11, 80, 'rawuuid', 'color_primaries', 'coding_equations'),
            ext(12, 80, 'rawuuid', 'essence_compression'),
            ext(14, 68, 'u8', 'essence_element_size_kind'),
            ext(15, 66, 'bool', 'frame_checked_with_mapper')])


@kind(b'DIDD', 'DIDDescriptor')
def d_DIDD(v):
    did(v)
    end(v)


def cdci(v):
    did(v)
    sec(v, 2)
    v.field('u32', 'horizontal_subsampling')
    v.field('u32', 'vertical_subsampling')
    v.field('s32', 'component_width')
    v.field('s16', 'color_sitting')
    v.field('u32', 'black_ref_level')
    v.field('u32', 'white_ref_level')
    v.field('u32', 'color_range')
    v.field('s64', 'frame_index_offset')
    v.exts([ext(1, 72, 'u32', 'alpha_sampled_width'), ext(2, 72, 'u32', 'ignore_bw')])


@kind(b'CDCI', 'CDCIDescriptor')
def d_CDCI(v):
    cdci(v)
    end(v)


@kind(b'MPGI', 'MPGIDescriptor')
def d_MPGI(v):
    cdci(v)
    sec(v, 1)
    for n in ('mpeg_version', 'profile', 'gop_structure', 'stream_type'):
        v.field('u8', n)
    for n in ('random_access', 'leading_discard', 'trailing_discard'):
        v.field('bool', n)
    v.field('u16', 'min_gop_length')
    v.field('u16', 'max_gop_length')
    v.blob('s32', 'sequence_hdr')
    end(v)


@kind(b'JPED', 'JPEGDescriptor')
def d_JPED(v):
    cdci(v)
    sec(v, 1)
    v.field('s32', 'jpeg_table_id')
    v.field('u64', 'jpeg_frame_index_offset')
    v.blob('s32', 'quantization_tables')
    v.exts([ext(1, 71, 's32', 'image_start_align')])
    end(v)


@kind(b'RGBA', 'RGBADescriptor')
def d_RGBA(v):
    did(v)
    sec(v, 1)
    if v.mode == 'gen':
        v.o['pixel_layout'] = [{'Code': v.rint(0, 255), 'Size': v.rint(0, 255)}
                               for i in range(v.nitems())]
    elif v.mode == 'enc':
        pl = v.o['pixel_layout']
        v.put('u32', len(pl))
        v.raw(bytearray(p['Code'] for p in pl))
        v.put('u32', len(pl))
        v.raw(bytearray(p['Size'] for p in pl))
    else:
        n = v.get('u32')
        a = v.take(n)
        n2 = v.get('u32')
        b = v.take(n2)
        if n != n2:
            raise FormatError('layout')
        v.o['pixel_layout'] = [{'Code': p, 'Size': q} for p, q in zip(bytearray(a), bytearray(b))]
    for i in range(3):
        v.const('u32', 0)

    def comps(v):
        v.tag(66)
        v.field('bool', 'has_comp_min_ref')
        v.tag(72)
        v.field('u32', 'comp_min_ref')
        v.tag(66)
        v.field('bool', 'has_comp_max_ref')
        v.tag(72)
        v.field('u32', 'comp_max_ref')
    v.exts([ext(1, 77, 'u64', 'frame_index_offset'),
            (2, ('has_comp_min_ref', 'comp_min_ref', 'has_comp_max_ref', 'comp_max_ref'), comps),
            ext(3, 72, 'u32', 'alpha_min_ref', 'alpha_max_ref')])
    end(v)


@kind(b'ANCD', 'ANCDataDescriptor')
def d_ANCD(v):
    mdfl(v)
    sec(v, 1)
    v.field('bool', 'is_offset_to_frame_indexes_valid')
    v.field('u64', 'offset_to_frame_indexes')
    v.field('s32', 'first_frame_offset')
    v.field('s32', 'min_sample_size')
    v.field('s32', 'max_sample_size')
    sec(v, 1)
    v.field('s32', 'manifest_element_count')
    end(v)


# helper classes, by (field name)
HELPERS = {'tracks': 'Track', 'items': 'BinItem', 'sifted_settings': 'SiftItem',
           'parameters': 'EffectParam', 'plugins': 'ASPIPlugin', 'chunks': 'ASPIPluginChunk',
           'bands': 'EqualizerBand'}
HELPERS_BY_CLASS = {(b'PRCL', 'control_points'): 'ParamControlPoint',
                    (b'PRCL', 'pp'): 'ParamControlPointProperty',
                    (b'CTRL', 'control_points'): 'ControlPoint',
                    (b'CTRL', 'pp'): 'ControlPointProperty'}


def helper_for(cls, name):
    return HELPERS_BY_CLASS.get((cls, name)) or HELPERS.get(name)


# list fields whose items are references
REFLISTS = {b'SEQU': 'components', b'MULD': 'descriptors', b'TKDS': 'tracker_data',
            b'TKPS': 'params', b'TKDA': 'clips', b'PRLS': '_refs', b'TMCS': '_refs'}


def encode(obj, bo, refmap):
    e = Enc(obj, bo, refmap)
    KINDS[obj.cls][1](e)
    return bytes(e.b)


def encode_marks(obj, bo, refmap):
    e = Enc(obj, bo, refmap)
    KINDS[obj.cls][1](e)
    return bytes(e.b), e.marks


def decode(cls, data, bo):
    if cls not in KINDS:
        raise FormatError('unknown class %r' % cls)
    d = Dec(cls, data, bo)
    KINDS[cls][1](d)
    if d.p != len(d.d):
        raise FormatError('trailing data')
    return Obj(cls, d.o)


def generate(cls, rng, pick, **kw):
    g = Gen(cls, rng, pick, **kw)
    KINDS[cls][1](g)
    return Obj(cls, g.o)


# -------------------------------------------------------------- whole files
def pstr(s, bo):
    b = s.encode('mac_roman') if not isinstance(s, bytes) else s
    return struct.pack(('<' if bo == 'little' else '>') + 'H', len(b)) + b


def build_header(bo, count, rootidx, save_ts=1500000000, save_str=u'2017/07/14 02:40:00',
                 version=u'pyavb 0.1.0', root_fourcc=b'OBJD', skip=b'\0\0\0\0', reserved=b'\0' * 16):
    e = '<' if bo == 'little' else '>'

    def cc(x):
        return x[::-1] if bo == 'little' else x
    out = b'\x06\x00' if bo == 'little' else b'\x00\x06'
    out += b'Domain' + cc(root_fourcc) + pstr(u'AObjDoc', bo) + b'\x04' + pstr(save_str, bo)
    out += struct.pack(e + 'II', count, rootidx)
    out += struct.pack(e + 'I', 0x49494949 if bo == 'little' else 0x4D4D4D4D)
    out += struct.pack(e + 'I', save_ts) + skip + cc(b'ATob') + cc(b'ATve')
    v = version.encode('mac_roman')[:30]
    v += b' ' * (30 - len(v))
    out += pstr(v, bo) + reserved
    return out


def frame(cls, data, bo):
    e = '<' if bo == 'little' else '>'
    return (cls[::-1] if bo == 'little' else cls) + struct.pack(e + 'I', len(data)) + data


def order_of(graph):
    """children-first order of the reachable ids, root last"""
    seen = {}
    out = []
    stack = [(graph.root, None)]
    while stack:
        i, it = stack.pop()
        if it is None:
            if i in seen:
                continue
            seen[i] = 1
            it = iter(refs_of(graph.objs[i]))
        for r in it:
            if r not in seen:
                stack.append((i, it))
                stack.append((r, None))
                break
        else:
            out.append(i)
    return out


def refs_of(obj):
    out = []

    def walk(v):
        if isinstance(v, Ref):
            out.append(v.id)
        elif isinstance(v, dict):
            for k in v:
                walk(v[k])
        elif isinstance(v, list):
            for i in v:
                walk(i)
    walk(obj.f)
    return out


def build_file(graph, bo, order=None, **hdr):
    if order is None:
        order = order_of(graph)
    refmap = dict((i, n + 1) for n, i in enumerate(order))
    body = b''.join(frame(graph.objs[i].cls, encode(graph.objs[i], bo, refmap), bo) for i in order)
    return build_header(bo, len(order), refmap[graph.root], **hdr) + body


class ParsedFile(object):
    pass


def parse_file(data, decode_objects=True):
    """strict, independent parse of a complete file"""
    p = ParsedFile()
    data = bytes(data)
    if data[:2] == b'\x06\x00':
        bo = 'little'
    elif data[:2] == b'\x00\x06':
        bo = 'big'
    else:
        raise FormatError('byte order mark')
    e = '<' if bo == 'little' else '>'
    pos = [2]

    def take(n):
        if pos[0] + n > len(data):
            raise FormatError('short header')
        r = data[pos[0]:pos[0] + n]
        pos[0] += n
        return r

    def cc():
        b = take(4)
        return b[::-1] if bo == 'little' else b

    def st():
        n = struct.unpack(e + 'H', take(2))[0]
        return take(n)
    p.bo = bo
    if take(6) != b'Domain':
        raise FormatError('magic')
    if cc() != b'OBJD' or st() != b'AObjDoc' or take(1) != b'\x04':
        raise FormatError('header')
    p.save_str = st().decode('mac_roman')
    p.count, p.root = struct.unpack(e + 'II', take(8))
    m = struct.unpack(e + 'I', take(4))[0]
    if m != (0x49494949 if bo == 'little' else 0x4D4D4D4D):
        raise FormatError('order marker')
    p.save_ts = struct.unpack(e + 'I', take(4))[0]
    p.skip = take(4)
    if cc() != b'ATob' or cc() != b'ATve':
        raise FormatError('header2')
    p.version_raw = st()
    p.reserved = take(16)
    p.header_len = pos[0]
    p.chunks = []
    for i in range(p.count):
        at = pos[0]
        c = cc()
        n = struct.unpack(e + 'I', take(4))[0]
        p.chunks.append((c, take(n), at))
    if pos[0] != len(data):
        raise FormatError('trailing bytes after the last object')
    if not 1 <= p.root <= p.count:
        raise FormatError('root index')
    if decode_objects:
        p.graph = Graph({}, p.root)
        for i, (c, d, at) in enumerate(p.chunks):
            try:
                p.graph.objs[i + 1] = decode(c, d, bo)
            except FormatError as x:
                raise FormatError('object %d %r: %s' % (i + 1, c, x))
        for i in p.graph.objs:
            for r in refs_of(p.graph.objs[i]):
                if r not in p.graph.objs:
                    raise FormatError('dangling reference %r -> %r' % (i, r))
    return p


# -------------------------------------------------------------- comparison
def rate(v):
    return Fraction(v[0]) * Fraction(10) ** v[1]


def norm_field(cls, name, v):
    return v


def compare(ga, gb, limit=5, ignore=()):
    """graph isomorphism from the roots; returns a list of difference strings"""
    diffs = []
    a2b, b2a = {}, {}
    todo = [(ga.root, gb.root, 'root')]

    def val(x, y, path, cls, name):
        if len(diffs) >= limit:
            return
        if isinstance(x, Ref) or isinstance(y, Ref):
            if x is None or y is None or not isinstance(x, Ref) or not isinstance(y, Ref):
                diffs.append('%s: %r != %r' % (path, x, y))
                return
            if x.id in a2b or y.id in b2a:
                if a2b.get(x.id) != y.id or b2a.get(y.id) != x.id:
                    diffs.append('%s: reference to a different object' % path)
                return
            a2b[x.id] = y.id
            b2a[y.id] = x.id
            todo.append((x.id, y.id, path))
        elif isinstance(x, dict) and isinstance(y, dict):
            x = dict((k, x[k]) for k in x if k[:8] != '_derived' and k not in ignore)
            y = dict((k, y[k]) for k in y if k[:8] != '_derived' and k not in ignore)
            for k in sorted(set(x) | set(y)):
                if k not in x or k not in y:
                    if k == 'lock_number' and (x.get(k, 0) == y.get(k, 0)):
                        continue
                    diffs.append('%s.%s: %s' % (path, k, 'missing in first (%r)' % (y[k],) if k not in x
                                                else 'missing in second (%r)' % (x[k],)))
                else:
                    val(x[k], y[k], path + '.' + k, cls, k)
        elif isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
            if isinstance(x, tuple) and len(x) == 2 and isinstance(y, tuple) and len(y) == 2:
                if rate(x) != rate(y):
                    diffs.append('%s: rate %r != %r' % (path, x, y))
                return
            if len(x) != len(y):
                diffs.append('%s: length %d != %d' % (path, len(x), len(y)))
                return
            for i in range(len(x)):
                val(x[i], y[i], '%s[%d]' % (path, i), cls, name)
        elif isinstance(x, float) and isinstance(y, float):
            if struct.pack('<d', x) != struct.pack('<d', y):
                diffs.append('%s: %r != %r' % (path, x, y))
        elif type(x) != type(y) or x != y:
            diffs.append('%s: %r != %r' % (path, _short(x), _short(y)))

    a2b[ga.root] = gb.root
    b2a[gb.root] = ga.root
    n = 0
    while todo and len(diffs) < limit:
        i, j, path = todo.pop()
        n += 1
        x, y = ga.objs[i], gb.objs[j]
        if x.cls != y.cls:
            diffs.append('%s: class %r != %r' % (path, x.cls, y.cls))
            continue
        val(x.f, y.f, '%s<%s>' % (path if len(path) < 120 else '..' + path[-110:], x.cls.decode('ascii')), x.cls, None)
    return diffs


def _short(v):
    s = repr(v)
    return s if len(s) < 80 else s[:77] + '...'
