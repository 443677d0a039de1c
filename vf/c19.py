# -*- coding: utf-8 -*-
"""C19: the object table gives every object of the file exactly once"""
import binascii
import io
import os
import struct

from . import c12, fmt, libio, samples
from .common import Violation, collect, named

PROPERTY = 'C19'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: the object table, observed through every kind of file object and interleaving of reads, is compared with the layout of the file; file descriptors are monitored'
LEVEL_NOTE = 'Sampling of files and interleavings; every entry of every table is compared with the bytes of the file.'
RULE = ('table: generated files (any object order, unreferenced objects, objects of unregistered kinds, empty objects, trailing bytes, both byte orders) opened by path, '
        'with any buffering, from memory, raw files and minimal file-like objects; random interleavings of table iteration, listing by kind, reading by number and '
        'through the content, chunk data, edits and saves. big: tables of up to 70001 objects, every entry. release: descriptors after close, with statements, errors and refused opens. sample: the sample files. '
        'Distinct: way of opening x byte order x kinds present x operations.')
ASSUMPTIONS = ['entry 0 of the table is the file header (kind OBJD)']
PLANS = {'quick': [('pure', 'table', 700, 3), ('ext', 'table', 600, 2), ('extpure', 'table', 150, 1), ('pure', 'release', 200, 1), ('ext', 'release', 150, 1),
                   ('pure', 'sample', 28, 1), ('ext', 'sample', 28, 1), ('pure', 'big', 18, 2), ('ext', 'big', 12, 2)],
         'thorough': [('pure', 'table', 24000, 8), ('ext', 'table', 24000, 8), ('extpure', 'table', 5000, 4), ('pure', 'release', 6000, 4), ('ext', 'release', 5000, 4),
                      ('pure', 'sample', 140, 4), ('ext', 'sample', 140, 4), ('pure', 'big', 400, 8), ('ext', 'big', 300, 8)]}
REQUIRED = {'entries': 20000, 'entries_read': 8000, 'by_kind': 2500, 'by_number': 5000, 'interleavings': 1000, 'closed': 500, 'refused_opens': 20, 'unknown_kinds': 60, 'big_tables': 24}
UNKNOWN = [b'ZZZZ', b'Q\x00\xff1', b'abcd', b'FILl', b'OBJX']


class Minimal(object):
    """only what a file-like object needs"""

    def __init__(self, raw):
        self.raw = raw
        self.closes = 0

    def read(self, n=-1):
        return self.raw.read(n)

    def readinto(self, b):
        return self.raw.readinto(b)

    def seek(self, pos, whence=0):
        return self.raw.seek(pos, whence)

    def tell(self):
        return self.raw.tell()

    def close(self):
        self.closes += 1
        self.raw.close()


def rev(c, bo):
    return c[::-1] if bo == 'little' else c


def filled(rng, size):
    part = bytes(bytearray(rng.getrandbits(8) for x in range(min(size, 401))))
    return (part * (size // 401 + 1))[:size]


def build(rng, bo):
    """(bytes, entries [(kind, data position, data, model object or None)] from number 1 on, header length)"""
    g = libio.rand_graph(rng, rng.randint(1, 18), maxlist=2, wild=rng.random() < 0.3)
    order = libio.shuffled_order(g, rng) if rng.random() < 0.6 else fmt.order_of(g)
    entries = []
    extra = rng.random() < 0.6
    frames = [('obj', i) for i in order]
    if extra:
        for k in range(rng.randint(1, 5)):
            frames.insert(rng.randint(0, len(frames)), ('extra', k))
    num = {}
    for n, (w, i) in enumerate(frames):
        if w == 'obj':
            num[i] = n + 1
    body = b''
    hl = len(fmt.build_header(bo, len(frames), num[g.root]))
    head = fmt.build_header(bo, len(frames), num[g.root])
    for w, i in frames:
        if w == 'obj':
            o = fmt.Obj(g.objs[i].cls, g.objs[i].f)
            d = fmt.encode(g.objs[i], bo, num)
            m = fmt.decode(o.cls, d, bo)
        elif rng.random() < 0.5:
            o = fmt.generate(rng.choice([b'FILL', b'SCLP', b'ATTR', b'MDES']), rng, lambda f, c, r: None, maxlist=1)
            if o.cls == b'ATTR' and rng.random() < 0.15:
                o.f['_items'].append([u'big one', 4, bytearray(filled(rng, rng.choice([65536, 70001, 140000])))])
            d = fmt.encode(o, bo, {})
            m = fmt.decode(o.cls, d, bo)
        else:
            o = fmt.Obj(rng.choice(UNKNOWN), {})
            d = filled(rng, rng.choice([0, 1, 5, 400]) if rng.random() < 0.93 else rng.choice([4097, 8191, 8193, 65535, 65536, 65537, 70001, 131073, 300001]))
            m = None
        entries.append((o.cls, hl + len(body) + 8, d, m))
        body += rev(o.cls, bo) + struct.pack('<I' if bo == 'little' else '>I', len(d)) + d
    data = head + body
    if rng.random() < 0.3:
        data += bytes(bytearray(rng.getrandbits(8) for x in range(rng.choice([1, 7, 100]))))
    return data, entries, hl, num[g.root]


WAYS = ['path', 'path', 'memory', 'memory', 'buffer', 'raw', 'small', 'minimal', 'file', 'bufrw']


def opened(ctx, rng, data, way, name='t.avb'):
    kw = {} if ctx.mode == 'pure' and rng.random() < 0.5 else {'use_ext': ctx.mode != 'extpure'}
    p = ctx.path(name if rng.random() < 0.7 else rng.choice([u'b\u00efn.avb', u'\u65e5\u672c.avb', 'a bin', 'x.y.z.AVB', '%s.avb']))
    if way == 'bufrw' and ctx.mode != 'pure':
        way = 'buffer'     # PyPy's own BufferedRandom.readinto returns wrong bytes
    if way != 'memory':
        with open(p, 'wb') as h:
            h.write(data)
    if way == 'path':
        return ctx.avb.open(named(p, rng.randrange(5)), **kw), None
    if way == 'small':
        return ctx.avb.open(p, buffering=rng.choice([0, 2, 16, 100, 4096, 1 << 20]), **kw), None
    if way == 'memory':
        h = io.BytesIO(data)
    elif way == 'buffer':
        h = io.open(p, 'rb', buffering=rng.choice([16, 8192]))
    elif way == 'raw':
        h = io.open(p, 'rb', buffering=0)
    elif way == 'minimal':
        h = Minimal(io.BytesIO(data) if rng.random() < 0.5 else io.open(p, 'rb'))
    elif way == 'bufrw':
        h = io.open(p, 'r+b')
    else:
        h = open(p, 'rb')
    return ctx.avb.open(h, **kw), h


class Table(object):
    def __init__(self, ctx, rng, f, h, data, entries, hl):
        self.ctx, self.rng, self.f, self.h, self.data, self.entries, self.hl = ctx, rng, f, h, data, entries, hl
        self.chunks = []          # (number, chunk) kept
        self.held = {}
        self.touched = set()      # edited objects: their values are their own
        self.its = []
        self.used = []
        self.made = 0             # objects the program made meanwhile

    def entry(self, i):
        if i == 0:
            return b'OBJD', 8, self.data[8:self.hl], None
        return self.entries[i - 1]

    def chunk(self, i, c, read=False):
        cls, pos, d, m = self.entry(i)
        if bytes(c.class_id) != cls or c.pos != pos or c.size != len(d):
            raise Violation('entry %d of the table is %r at %r of %r bytes; the file has %r at %d of %d bytes' % (i, c.class_id, c.pos, c.size, cls, pos, len(d)))
        self.ctx.count('entries')
        if read:
            if bytes(c.read()) != d:
                raise Violation('the data of entry %d (%r) differs from the bytes in the file' % (i, cls))
            x = binascii.unhexlify(c.hex())
            if x != cls[::-1] + struct.pack('<I', len(d)) + d:
                raise Violation('the hex dump of entry %d (%r) differs from the bytes in the file' % (i, cls))
            self.ctx.count('entries_read')

    def object(self, i, o, how):
        cls, pos, d, m = self.entry(i)
        if o is None:
            raise Violation('%s gives nothing for object %d (%r)' % (how, i, cls))
        if o.class_id != cls or o.instance_id != i:
            raise Violation('%s gives object %r (%r) for object %d (%r)' % (how, o.instance_id, o.class_id, i, cls))
        if i in self.held and self.held[i] is not o:
            raise Violation('%s gives another instance of object %d, which is in use' % (how, i))
        if i not in self.touched and self.rng.random() < 0.4:
            df = fmt.compare(c12.stub(m), c12.stub(c12.View().one(o)))
            if df:
                raise Violation('%s: object %d (%r) differs from what is stored there: %s' % (how, i, cls, '; '.join(df)))
        if self.rng.random() < 0.4:
            self.held[i] = o

    def all(self):
        got = list(self.f.chunks())
        if len(got) != len(self.entries) + 1:
            raise Violation('the table has %d entries, the file %d objects and a header' % (len(got), len(self.entries)))
        for i, c in enumerate(got):
            self.chunk(i, c, self.rng.random() < 0.5)

    def kinds(self):
        rng = self.rng
        have = sorted(set(e[0] for e in self.entries if e[3] is not None))
        ks = [k for k in have if rng.random() < 0.4] + rng.sample([b'FILL', b'SPED', b'ATTR', b'CDCI', b'ABCD'], 2)
        rng.shuffle(ks)
        return rng.choice([list, tuple, set, frozenset])(ks), [i + 1 for i, e in enumerate(self.entries) if e[0] in ks]

    def by_kind(self):
        ks, want = self.kinds()
        got = []
        for o in self.f.iter_class_ids(ks):
            if len(got) >= len(want):
                raise Violation('listing the kinds %r gives more than the %d objects of these kinds' % (sorted(ks), len(want)))
            self.object(want[len(got)], o, 'listing the kinds %r' % sorted(ks))
            got.append(o.instance_id)
            self.ctx.count('by_kind')
            if self.rng.random() < 0.3:
                self.op(deep=True)
        if got != want:
            raise Violation('listing the kinds %r gives the objects %r, the file has %r' % (sorted(ks), got, want))

    def by_number(self):
        i = self.rng.randint(1, len(self.entries))
        if self.entry(i)[3] is None:
            try:
                o = self.f.read_object(i)
            except Exception:
                self.ctx.count('unknown_kinds')
                return
            raise Violation('reading object %d of the unknown kind %r gives %r' % (i, self.entry(i)[0], o))
        self.object(i, self.f.read_object(i), 'reading by number')
        self.ctx.count('by_number')

    def step(self):
        rng = self.rng
        it = rng.choice(self.its)
        for k in range(rng.randint(1, 4)):
            x = next(it[1], None)
            if x is None:
                if it[2]:
                    raise Violation('an interrupted %s iteration ends %d entries early' % (it[0], len(it[2])))
                self.its.remove(it)
                break
            if not it[2]:
                raise Violation('an interrupted %s iteration gives more than the file has' % it[0])
            i = it[2].pop(0)
            if it[0] == 'chunks':
                self.chunk(i, x, rng.random() < 0.3)
            else:
                self.object(i, x, 'an interrupted listing by kind')
        self.ctx.count('interleavings')

    def op(self, deep=False):
        rng, f = self.rng, self.f
        w = rng.choice(['all', 'kind', 'number', 'number', 'number', 'chunk', 'old chunk', 'step', 'step', 'new iterator', 'move', 'collect', 'edit', 'save', 'content', 'outside'])
        if deep and w in ('all', 'kind', 'save'):
            w = 'number'
        self.used.append(w)
        if w == 'all':
            self.all()
        elif w == 'kind':
            self.by_kind()
        elif w == 'number':
            self.by_number()
        elif w == 'chunk':
            i = rng.randint(0, len(self.entries))
            c = f.read_chunk(i)
            self.chunk(i, c, rng.random() < 0.6)
            self.chunks.append((i, c))
        elif w == 'old chunk' and self.chunks:
            i, c = rng.choice(self.chunks)
            self.chunk(i, c, True)
        elif w == 'new iterator':
            if rng.random() < 0.5:
                self.its.append(['chunks', iter(f.chunks()), list(range(len(self.entries) + 1))])
            else:
                ks, want = self.kinds()
                self.its.append(['objects', iter(f.iter_class_ids(ks)), want])
            if not deep:
                self.step()
                self.op(deep=True)
                if self.its:
                    self.step()
        elif w == 'step' and self.its:
            self.step()
        elif w == 'move' and self.h is not None:
            self.h.seek(rng.randint(0, len(self.data)))       # the program uses its own file object, too
            if rng.random() < 0.5:
                self.h.read(rng.randint(0, 50))
        elif w == 'collect':
            if rng.random() < 0.5:
                self.held = {}
            else:
                self.held = dict(x for x in self.held.items() if x[0] in self.touched or rng.random() < 0.5)
            if rng.random() < 0.3:
                collect()
        elif w == 'edit':
            i = rng.randint(1, len(self.entries))
            cls, pos, d, m = self.entry(i)
            if m is not None and cls == b'FILL':
                o = f.read_object(i)
                o.name = 'edited'
                self.touched.add(i)
                self.held[i] = o
            if rng.random() < 0.5:
                f.create.Filler()
                self.made += 1
        elif w == 'save':
            f.write(self.ctx.path('other.avb'), rng.choice(['little', 'big']))
        elif w == 'content':
            c = f.content
            self.object(c.instance_id, c, 'content')
        elif w == 'outside':
            n = len(self.entries)
            for i in (n + 1, n + 2, n + 1000, n + 100000):
                for read in (f.read_object, f.read_chunk):
                    try:
                        x = read(i)
                    except Exception:
                        continue
                    if self.made and i < n + 1000 and read == f.read_object:
                        continue       # an object made meanwhile
                    raise Violation('the file has %d objects, %s(%d) gives %r' % (n, read.__name__, i, x))
            if f.read_object(0) is not None:
                raise Violation('object 0 (no object) reads as something')


def table_case(ctx, rng, n):
    bo = rng.choice(['little', 'big'])
    data, entries, hl, root = build(rng, bo)
    way = WAYS[n % len(WAYS)]
    f, h = opened(ctx, rng, data, way)
    t = Table(ctx, rng, f, h, data, entries, hl)
    if f.content.instance_id != root:
        raise Violation('the content is object %d, the header says %d' % (f.content.instance_id, root))
    for k in range(rng.randint(1, 20)):
        t.op()
    t.all()
    # all of it by number, each exactly what is stored there
    for i in range(1, len(entries) + 1):
        if entries[i - 1][3] is not None:
            t.object(i, f.read_object(i), 'reading by number')
            ctx.count('by_number')
    f.close()
    ctx.count('closed')
    ctx.seen(way, bo, tuple(sorted(set(e[0] for e in entries)))[:6], tuple(t.used[:3]))


def big_case(ctx, rng, n):
    """tables of many objects: every entry"""
    bo = rng.choice(['little', 'big'])
    e = '<I' if bo == 'little' else '>I'
    count = rng.choice([255, 256, 257, 4095, 4096, 4097, 5003, 65534, 65535, 65536, 70001] if n % 3 == 0 else [600, 1024, 2047, 3000, 5000, 10007])
    forms = []
    for k in range(12):
        o = fmt.generate(rng.choice([b'FILL', b'SCLP', b'ATTR', b'MDES', b'PRLS']), rng, lambda f, c, r: None, maxlist=1)
        forms.append((o.cls, fmt.encode(o, bo, {})))
    root = rng.choice([1, count, rng.randint(1, count)])
    rootobj = fmt.generate(b'ABIN', rng, lambda f, c, r: None, maxlist=0)
    entries = []
    head = fmt.build_header(bo, count, root)
    out = [head]
    at = len(head)
    for i in range(1, count + 1):
        if i == root:
            cls, d = b'ABIN', fmt.encode(rootobj, bo, {})
        elif rng.random() < 0.02:
            cls, d = rng.choice(UNKNOWN), b'\0' * rng.choice([0, 1, 255, 256, 65535, 65536] if count < 6000 else [0, 1, 255, 256])
        else:
            cls, d = forms[rng.randrange(len(forms))]
        entries.append((cls, at + 8, len(d), d))
        out.append(rev(cls, bo) + struct.pack(e, len(d)))
        out.append(d)
        at += 8 + len(d)
    data = b''.join(out)
    f, h = opened(ctx, rng, data, rng.choice(['path', 'memory', 'small', 'raw', 'buffer']))
    got = 0
    late = None
    for i, c in enumerate(f.chunks()):
        if i > count:
            raise Violation('the table has more than the %d entries of the file' % count)
        if i:
            cls, pos, size, d = entries[i - 1]
            if bytes(c.class_id) != cls or c.pos != pos or c.size != size:
                raise Violation('entry %d of %d is %r at %r of %r bytes; the file has %r at %d of %d bytes' % (i, count, c.class_id, c.pos, c.size, cls, pos, size))
            if rng.random() < 0.02 and bytes(c.read()) != d:
                raise Violation('the data of entry %d of %d differs' % (i, count))
        got += 1
        ctx.count('entries')
        if rng.random() < 0.01:
            f.read_chunk(rng.randint(1, count)).read()
    if got != count + 1:
        raise Violation('the table has %d entries, the file %d objects and a header' % (got, count))
    kind = rng.choice([b'FILL', b'SCLP', b'ATTR'])
    want = [i + 1 for i, x in enumerate(entries) if x[0] == kind]
    if len(want) > 4000:
        kind, want = b'ABIN', [root]
    if [o.instance_id for o in f.iter_class_ids([kind])] != want:
        raise Violation('listing the %d objects of kind %r among %d gives others' % (len(want), kind, count))
    models = {}
    for i in [1, count] + [rng.randint(1, count) for x in range(150)]:
        cls, pos, size, d = entries[i - 1]
        if cls in UNKNOWN or cls == b'ABIN':
            continue
        o = f.read_object(i)
        if (cls, d) not in models:
            models[cls, d] = c12.stub(fmt.decode(cls, d, bo))
        df = fmt.compare(models[cls, d], c12.stub(c12.View().one(o)))
        if df or o.instance_id != i:
            raise Violation('object %d of %d (%r) differs from what is stored there: %s' % (i, count, cls, '; '.join(df)))
        ctx.count('by_number')
    for i in (count + 1, count + 65536, count + rng.randint(1, 10**6)):
        try:
            o = f.read_object(i)
        except Exception:
            continue
        raise Violation('the file has %d objects, read_object(%d) gives %r' % (count, i, o))
    f.close()
    ctx.count('closed')
    ctx.count('big_tables')
    ctx.seen('big', bo, count)


def descriptors(p):
    out = []
    for x in os.listdir('/proc/self/fd'):
        try:
            if os.path.realpath(os.readlink('/proc/self/fd/' + x)) == os.path.realpath(p):
                out.append(x)
        except OSError:
            pass
    return out


def release_case(ctx, rng, n):
    bo = rng.choice(['little', 'big'])
    data, entries, hl, root = build(rng, bo)
    p = ctx.path('r%d.avb' % n)
    with open(p, 'wb') as h:
        h.write(data)
    kw = {'use_ext': ctx.mode != 'extpure'}
    way = ['close', 'with', 'error', 'damaged', 'like', 'twice', 'replace'][n % 7]
    keep = []
    if way == 'close':
        f = ctx.avb.open(p, **kw)
        keep.append(f.content)
        keep += list(f.chunks())
        if len(descriptors(p)) != 1:
            raise Violation('an open file holds %d descriptors' % len(descriptors(p)))
        f.close()
        f.close()
        for x in (lambda: keep[-1].read(), lambda: [x for x in f.chunks()]):
            try:
                x()
            except Exception:
                continue
            raise Violation('the file can be read after it was closed')
        ctx.count('closed')
    elif way == 'with':
        with ctx.avb.open(p, **kw) as f:
            keep.append(f.content)
            it = f.chunks()
            next(it)
            keep.append(it)
            if f.f.closed if hasattr(f, 'f') else False:
                raise Violation('the file is closed inside its with statement')
        ctx.count('closed')
    elif way == 'error':
        class Stop(Exception):
            pass
        try:
            with ctx.avb.open(p, **kw) as f:
                keep.append(f.content)
                raise Stop()
        except Stop:
            pass
        else:
            raise Violation('a with statement swallows the error')
        ctx.count('closed')
    elif way == 'damaged':
        b = bytearray(data)
        how = rng.choice(['magic', 'short', 'empty', 'root', 'header'])
        if how == 'magic':
            b[rng.randrange(8)] ^= 0x55
        elif how == 'short':
            b = b[:rng.randint(1, hl - 1)]
        elif how == 'empty':
            b = bytearray()
        elif how == 'header':
            b[8 + rng.randrange(4)] ^= 0x15
        else:
            # the root object is of an unknown kind
            at = entries[root - 1][1] - 8
            b[at:at + 4] = b'zzzz'
        with open(p, 'wb') as h:
            h.write(b)
        try:
            f = ctx.avb.open(p, **kw)
        except Exception as e:
            keep.append(e)
            ctx.count('refused_opens')
        else:
            raise Violation('a damaged file (%s) opens' % how)
    elif way == 'like':
        h = Minimal(io.open(p, 'rb'))
        f = ctx.avb.open(h, **kw)
        keep.append(f.content)
        f.close()
        if not h.closes:
            raise Violation('closing does not close the file object')
        ctx.count('closed')
    elif way == 'twice':
        fs = [ctx.avb.open(p, **kw) for i in range(4)]
        for f in fs:
            t = Table(ctx, rng, f, None, data, entries, hl)
            t.all()
            t.by_number()
        fs[0].close()
        Table(ctx, rng, fs[1], None, data, entries, hl).all()
        for f in fs[1:]:
            with f:
                Table(ctx, rng, f, None, data, entries, hl).all()
            keep.append(f)
        ctx.count('closed', 4)
    else:
        f = ctx.avb.open(p, **kw)
        keep.append(f.content)
        f.write(p, rng.choice(['little', 'big']))
        f.close()
        ctx.count('closed')
        with ctx.avb.open(p, **kw) as g:
            for i, c in enumerate(g.chunks()):
                c.read()
    left = descriptors(p)
    if left:
        raise Violation('%s: %d descriptors of the file are still open' % (way, len(left)))
    os.unlink(p)
    # an empty new file has nothing to release
    ctx.avb.open().close()
    ctx.seen('release', way, bo, len(entries))


def sample_case(ctx, rng, n):
    fs = samples.files()
    p = fs[n % len(fs)]
    data = samples.data(p)
    pf = fmt.parse_file(data, False)
    entries = []
    for cls, d, at in pf.chunks:
        entries.append((cls, at + 8, d, None if cls not in fmt.KINDS else True))
    big = len(entries) > 2000
    f, h = (ctx.avb.open(p, use_ext=ctx.mode != 'extpure'), None) if n % 2 else opened(ctx, rng, data, rng.choice(WAYS))

    class T(Table):
        def entry(self, i):
            e = Table.entry(self, i)
            return e[:3] + (fmt.decode(e[0], e[2], pf.bo) if e[3] else None,)
    t = T(ctx, rng, f, h, data, entries, pf.header_len)
    t.touched = set() if not big else set(range(len(entries) + 1)) - set(rng.sample(range(len(entries)), 100))
    for k in range(10):
        t.op(deep=big)
    got = 0
    for i, c in enumerate(f.chunks()):
        cls, pos, d, m = Table.entry(t, i)
        if (bytes(c.class_id), c.pos, c.size) != (cls, pos, len(d)):
            raise Violation('entry %d of %s is %r at %d of %d bytes, the file has %r at %d of %d bytes' % (i, p, c.class_id, c.pos, c.size, cls, pos, len(d)))
        got += 1
        ctx.count('entries')
    if got != len(entries) + 1:
        raise Violation('the table of %s has %d entries, expected %d' % (p, got, len(entries) + 1))
    f.close()
    ctx.count('closed')
    ctx.seen('sample', p)


WORKLOADS = {'big': big_case, 'table': table_case, 'release': release_case, 'sample': sample_case}
