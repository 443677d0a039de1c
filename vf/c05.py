# -*- coding: utf-8 -*-
"""C05: malformed or truncated files are refused, never silently misread"""
import io
import os
import random
import struct

from . import c12, edit, fmt, hostile, libio, samples, scen
from .common import Violation

PROPERTY = 'C05'
LEVEL = 'exploration'
TECHNIQUE = 'fault injection with runtime monitors: damaged and truncated files are opened and read, a strict independent decoder decides what must be refused and what every accepted value must be'
LEVEL_NOTE = 'Every truncation point and every structural byte of each generated file is visited with several damaging values; files and values are sampled.'
RULE = ('object: every structural byte of an encoded object (tags, extension numbers, value type markers, end markers) with several '
        'other values and every truncation of its data, references past the last object. marks: all optional fields present, every structural byte, many values. random: any damage; whatever the strict decoder refuses as structure must be '
        'refused, whatever is accepted must have the decoded values. truncate: every prefix of whole files. header: every structural '
        'byte of the file header, foreign files. frame: object kinds and sizes in the table. usable: after a refusal the other '
        'objects read right, the damaged one keeps being refused, edits and writes work once it is gone. Distinct: kind x damage x outcome.')
ASSUMPTIONS = ['after a damaged object size only the objects stored before it can still be located',
               'damage to a plain value (a number, a character) cannot be recognised and is not in the property']
PLANS = {'quick': [('pure', 'object', 240, 3), ('ext', 'object', 160, 3), ('pure', 'marks', 124, 2), ('ext', 'marks', 62, 2), ('pure', 'random', 100, 2), ('ext', 'random', 100, 2),
                   ('pure', 'truncate', 24, 4), ('ext', 'truncate', 16, 2), ('pure', 'header', 40, 1), ('ext', 'header', 20, 1),
                   ('pure', 'frame', 300, 1), ('ext', 'frame', 300, 1), ('pure', 'usable', 240, 2), ('ext', 'usable', 240, 2)],
         'thorough': [('pure', 'object', 8000, 12), ('ext', 'object', 6000, 12), ('pure', 'marks', 2480, 8), ('ext', 'marks', 1240, 8), ('pure', 'random', 3000, 8), ('ext', 'random', 3000, 8),
                      ('pure', 'truncate', 400, 12), ('ext', 'truncate', 300, 12), ('pure', 'header', 600, 4), ('ext', 'header', 300, 4),
                      ('pure', 'frame', 9000, 6), ('ext', 'frame', 9000, 6), ('pure', 'usable', 9000, 8), ('ext', 'usable', 9000, 8)]}
REQUIRED = {'marks_damaged': 60000, 'object_truncations': 20000, 'refused': 40000, 'accepted_values_checked': 3000,
            'prefixes': 20000, 'header_bytes': 2000, 'frames': 400, 'usable_files': 300, 'read_beside_damage': 3000, 'refs_outside': 3000}

SOFT = ('const', 'count', 'line map')      # values no reader needs to understand
STRUCT = ('tag', 'exttag', 'attrtype')


def structural(err):
    return not str(err).startswith(SOFT)


def model(cls, data, bo):
    try:
        m = fmt.decode(cls, data, bo)
    except fmt.FormatError as e:
        return None, e
    return m, None


def refused(f, i):
    try:
        return None, f.read_object(i)
    except Exception as e:
        return e, None


def judge(ctx, f, i, cls, data, bo, limit, what, total):
    """one damaged object: limit is the number of the last undamaged object, total that of the last object"""
    m, err = model(cls, data, bo)
    e, o = refused(f, i)
    if err is None and any(r > total for r in fmt.refs_of(m)):
        if e is None:
            raise Violation('%s: accepted although it refers to object %d of %d: %s' % (what, max(fmt.refs_of(m)), total, data.hex()[:800]))
        ctx.count('refs_outside')
        return 'outside'
    if err is not None and structural(err):
        if e is None:
            raise Violation('%s: accepted although %s: %s' % (what, err, data.hex()[:800]))
        ctx.count('refused')
        if i % 16 == 0 and refused(f, i)[0] is None:
            raise Violation('%s: accepted when read a second time: %s' % (what, data.hex()[:800]))
        return 'refused'
    if e is not None:
        ctx.count('refused_other')
        return 'refused'
    if m is None:
        return 'soft'
    if any(r > limit for r in fmt.refs_of(m)):
        return 'refs'
    d = fmt.compare(c12.stub(m), c12.stub(c12.View().one(o)), ignore=libio.RATE_FIELDS)
    if d:
        raise Violation('%s: read as something else: %s: %s' % (what, '; '.join(d), data.hex()[:800]))
    ctx.count('accepted_values_checked')
    return 'accepted'


def open_bytes(ctx, data):
    return libio.open_bytes(ctx.avb, data, ctx.mode)


def object_case(ctx, rng, n):
    cls = hostile.PLAIN[n % len(hostile.PLAIN)]
    bo = 'little' if rng.random() < (0.85 if ctx.mode == 'ext' else 0.5) else 'big'
    bed = hostile.Bed(rng, bo)
    o, data, marks = bed.make(rng, cls, maxlist=rng.choice([1, 2, 2, 4]), full=rng.random() < 0.4)
    good = bed.add(cls, data)
    made = []
    for mk in marks:
        if mk[0] not in STRUCT:
            continue
        for p in range(mk[1], mk[2]):
            vals = set([0, 255, data[p] ^ 1, data[p] + 1 & 255, rng.choice(hostile.SPECIAL8), rng.getrandbits(8)]) - set([data[p]])
            for v in rng.sample(sorted(vals), min(len(vals), 4)):
                d = data[:p] + bytes([v]) + data[p + 1:]
                made.append((mk[0], bed.add(cls, d), d, '%r %s at %d is %d instead of %d' % (cls, mk[0], p, v, data[p])))
                ctx.count('marks_damaged')
    cuts = range(len(data)) if len(data) < 700 else sorted(rng.sample(range(len(data)), 500))
    for c in cuts:
        made.append(('cut', bed.add(cls, data[:c]), data[:c], '%r cut to %d of %d bytes' % (cls, c, len(data))))
        ctx.count('object_truncations')
    limit = bed.fixed
    # references to objects that are not in the file
    spots = [mk[1] for mk in marks if mk[0] == 'ref']
    if len(spots) > 12:
        spots = rng.sample(spots, 12)
    last = len(bed.chunks) + 3 * len(spots)
    for p in spots:
        for v in (last + 1, last + rng.choice([2, 3, 1000]), rng.choice([0xffffffff, 0x7fffffff, 0x80000000 + last, 0x10000 + last + 1])):
            d = data[:p] + struct.pack('<I' if bo == 'little' else '>I', v) + data[p + 4:]
            made.append(('ref', bed.add(cls, d), d, '%r refers to object %d of %d' % (cls, v, last)))
    total = len(bed.chunks)
    assert total == last
    f = open_bytes(ctx, bed.data())
    rng.shuffle(made)
    for how, i, d, what in made:
        r = judge(ctx, f, i, cls, d, bo, limit, what, total)
        if how == 'cut' and r == 'accepted':
            raise Violation('%s: accepted: %s' % (what, d.hex()[:800]))
        ctx.seen(cls, how, r)
    # the undamaged one, read last, and the others
    d = fmt.compare(c12.stub(o), c12.stub(c12.View().one(f.read_object(good))))
    if d:
        raise Violation('%r read differently after damaged ones were refused: %s' % (cls, '; '.join(d)))
    ctx.count('read_beside_damage')


def marks_case(ctx, rng, n):
    """an object with all its optional fields: every structural byte with many values"""
    cls = hostile.PLAIN[n % len(hostile.PLAIN)]
    bo = 'little' if rng.random() < (0.85 if ctx.mode == 'ext' else 0.5) else 'big'
    bed = hostile.Bed(rng, bo)
    o, data, marks = bed.make(rng, cls, maxlist=1, full=True)
    made = []
    for mk in marks:
        if mk[0] not in STRUCT:
            continue
        for p in range(mk[1], mk[2]):
            if mk[0] == 'exttag':
                vals = list(range(24)) + [data[p] ^ 0x10, data[p] ^ 0x80, 255] + [rng.getrandbits(8) for x in range(10)]
            else:
                vals = [0, 1, 2, 3, 4, 255, data[p] ^ 1, data[p] ^ 0x80, data[p] + 1 & 255, rng.choice(hostile.SPECIAL8)] + [rng.getrandbits(8) for x in range(3)]
            for v in sorted(set(vals) - set([data[p]])):
                d = data[:p] + bytes([v]) + data[p + 1:]
                made.append((mk[0], bed.add(cls, d), d, '%r %s at %d is %d instead of %d' % (cls, mk[0], p, v, data[p])))
                ctx.count('marks_damaged')
    total = len(bed.chunks)
    f = open_bytes(ctx, bed.data())
    rng.shuffle(made)
    for how, i, d, what in made:
        r = judge(ctx, f, i, cls, d, bo, bed.fixed, what, total)
        ctx.seen(cls, how, r, 'full')


def random_case(ctx, rng, n):
    cls = hostile.PLAIN[n % len(hostile.PLAIN)] if rng.random() < 0.7 else rng.choice([b'ATTR', b'CMPO', b'TKFX', b'PRCL', b'SLCT', b'ASPI'])
    bo = 'little' if rng.random() < 0.7 else 'big'
    bed = hostile.Bed(rng, bo)
    made = []
    for k in range(3):
        o, data, marks = bed.make(rng, cls, maxlist=rng.choice([1, 3]))
        for x in range(50):
            how, d = hostile.mutate(rng, data, marks, bed)
            made.append((how, bed.add(cls, d), d))
            if rng.random() < 0.05:
                other = rng.choice(hostile.PLAIN)
                made.append(('kind', bed.add(other, data), data))
    f = open_bytes(ctx, bed.data())
    for how, i, d in made:
        c = bed.chunks[i - 1][0]
        r = judge(ctx, f, i, c, d, bo, bed.fixed, '%r after %s' % (c, how), len(bed.chunks))
        ctx.seen(c, how, r)


# ------------------------------------------------------------ whole files
def parse(data):
    """the strict decoding; chunks as (kind, data, offset of the data)"""
    p = fmt.parse_file(data)
    p.chunks = [(c, d, at + 8) for c, d, at in p.chunks]
    return p


def expect_file(ctx, data, n, parsed, what, f):
    """f was opened from the first n bytes: stored objects read right, cut ones are refused"""
    g = parsed.graph
    for i in range(1, parsed.count + 1):
        cls, d, pos = parsed.chunks[i - 1]
        if pos + len(d) <= n:
            if not any(parsed.chunks[j - 1][2] + len(parsed.chunks[j - 1][1]) > n for j in fmt.refs_of(g.objs[i])):
                dd = fmt.compare(c12.stub(g.objs[i]), c12.stub(c12.View().one(f.read_object(i))))
                if dd:
                    raise Violation('%s: object %d reads as something else: %s' % (what, i, '; '.join(dd)))
                ctx.count('read_beside_damage')
        else:
            for k in range(2):
                if refused(f, i)[0] is None:
                    raise Violation('%s: object %d, which is cut off, is accepted' % (what, i))
                ctx.count('refused')


def truncate(ctx, rng, n):
    # the root first lets a file with cut objects open
    if n % 5 == 4:
        data = samples.data(rng.choice(samples.small()))
        pts = sorted(rng.sample(range(len(data)), 300 if ctx.tier == 'quick' else 2500))
    else:
        g = libio.rand_graph(rng, rng.randint(1, 8), maxlist=1, root_cls=rng.choice([b'BINF', b'ABIN']))
        order = fmt.order_of(g)
        if rng.random() < 0.6:
            order.remove(g.root)
            order.insert(0, g.root)
        data = fmt.build_file(g, rng.choice(['little', 'big']), order)
        pts = range(len(data)) if len(data) < 3000 else sorted(rng.sample(range(len(data)), 3000))
    parsed = parse(data)
    root = parsed.chunks[parsed.root - 1]
    bypath = rng.random() < 0.2
    p = ctx.path('cut.avb')
    for k in pts:
        what = 'the first %d of %d bytes' % (k, len(data))
        ctx.count('prefixes')
        try:
            if bypath:
                with open(p, 'wb') as h:
                    h.write(data[:k])
                f = ctx.avb.open(p, use_ext=ctx.mode != 'extpure')
            else:
                f = open_bytes(ctx, data[:k])
        except Exception as e:
            ctx.count('refused')
            ctx.seen('prefix', type(e).__name__)
            # not refused without reason: an object header or the root is cut off
            if root[2] + len(root[1]) <= k and all(c[2] <= k for c in parsed.chunks):
                raise Violation('%s: all that is needed to open it is there: %s: %s' % (what, type(e).__name__, e))
            continue
        with f:
            if root[2] + len(root[1]) > k:
                raise Violation('%s: opened although its root object is cut off' % what)
            expect_file(ctx, data, k, parsed, what, f)
            ctx.seen('prefix', 'opened')
    ctx.sample('%d prefixes of a file of %d bytes' % (len(pts), len(data)))


def must_refuse(ctx, data, what):
    try:
        f = open_bytes(ctx, data)
    except Exception as e:
        ctx.count('refused')
        return
    raise Violation('%s: opened without an error' % what)


def header(ctx, rng, n):
    g = libio.rand_graph(rng, rng.randint(1, 5), maxlist=1)
    bo = rng.choice(['little', 'big'])
    data = fmt.build_file(g, bo)
    parsed = parse(data)
    # every byte up to the save date text, order marker, second pair of tags
    s = 2 + 6 + 4 + (2 + 7) + 1
    spots = [(p, 'magic') for p in range(8)] + [(p, 'OBJD') for p in range(8, 12)] + [(p, 'AObjDoc') for p in range(12, 21)] + [(21, 'tag')]
    q = data.index(b'\x49\x49\x49\x49' if bo == 'little' else b'\x4d\x4d\x4d\x4d', s)
    spots += [(p, 'order marker') for p in range(q, q + 4)]
    t = data.index(b'boTAevTA' if bo == 'little' else b'ATobATve', q)
    spots += [(p, 'tags') for p in range(t, t + 8)]
    for p, name in spots:
        vals = [0, 255, data[p] ^ 0x20, data[p] + 1 & 255, rng.getrandbits(8)]
        for v in vals:
            if v == data[p]:
                continue
            must_refuse(ctx, data[:p] + bytes([v]) + data[p + 1:], 'header byte %d (%s) is %d instead of %d' % (p, name, v, data[p]))
            ctx.count('header_bytes')
            ctx.seen(bo, p, name)
    # not an AVB file at all
    other = [b'', b'\0', b'\x06\0', b'\0\x06', b'\x06\0Domain', b'Domain', data[2:], data[1:], b'\0' + data, b'\xef\xbb\xbf' + data,
             data[8:], b'<?xml version="1.0"?>' * 20, b'RIFF' + data, b'\xd0\xcf\x11\xe0' * 200, data[::-1],
             bytes(bytearray(rng.getrandbits(8) for x in range(300))), b'\x06\0' + bytes(bytearray(rng.getrandbits(8) for x in range(300))),
             b'\x06\0Domain' + bytes(bytearray(rng.getrandbits(8) for x in range(300))), b'\0' * 500, data[:30] + b'\0' * 600]
    # byte order mark of the other order
    other.append((b'\0\x06' if bo == 'little' else b'\x06\0') + data[2:])
    # a root that does not exist
    e = '<' if bo == 'little' else '>'
    at = q - 4
    for v in (parsed.count + 1, 0xffffffff, 0x7fffffff, parsed.count + rng.randint(1, 1000)):
        other.append(data[:at] + struct.pack(e + 'I', v) + data[at + 4:])
    # more objects than there are
    for v in (1, 2, rng.randint(3, 5000)):
        other.append(data[:at - 4] + struct.pack(e + 'I', parsed.count + v) + data[at:])
    for d in other:
        if d == data:
            continue
        must_refuse(ctx, d, 'not an AVB file (%r...)' % d[:24])
        ctx.count('not_avb')
    # through a path: refused, closed and not changed
    p = ctx.path('not.avb')
    d = rng.choice(other)
    with open(p, 'wb') as h:
        h.write(d)
    fds = len(os.listdir('/proc/self/fd'))
    try:
        ctx.avb.open(p)
    except Exception:
        pass
    if len(os.listdir('/proc/self/fd')) > fds:
        raise Violation('a file that was refused stays open')
    with open(p, 'rb') as h:
        if h.read() != d:
            raise Violation('a file that was refused is changed')


def frame(ctx, rng, n):
    g = libio.rand_graph(rng, rng.randint(2, 9), maxlist=2)
    bo = rng.choice(['little', 'big'])
    order = fmt.order_of(g)
    if rng.random() < 0.6:
        order.remove(g.root)
        order.insert(0, g.root)
    data = fmt.build_file(g, bo, order)
    parsed = parse(data)
    e = '<' if bo == 'little' else '>'
    i = rng.randint(1, parsed.count)
    cls, d, pos = parsed.chunks[i - 1]
    ctx.count('frames')
    if rng.random() < 0.5:
        # the kind
        new = rng.choice([bytes(bytearray([rng.getrandbits(8) for x in range(4)])), cls[:3] + bytes([cls[3] ^ 1]), b'\0\0\0\0', b'XXXX',
                          cls.swapcase(), rng.choice(hostile.PLAIN), rng.choice(hostile.PLAIN)])
        if new == cls or new in (b'TRKG', b'DATD', b'OBJD'):
            return
        out = data[:pos - 8] + (new[::-1] if bo == 'little' else new) + data[pos - 4:]
        what = 'object %d is called %r instead of %r' % (i, new, cls)
        m, err = model(new, d, bo)
        try:
            f = open_bytes(ctx, out)
        except Exception as x:
            if i != parsed.root:
                raise Violation('%s: not opened, although the root is undamaged: %s' % (what, x))
            ctx.count('refused')
            return
        if err is not None and structural(err):
            if i == parsed.root:
                raise Violation('%s: opened although it is the root' % what)
            for k in range(2):
                if refused(f, i)[0] is None:
                    raise Violation('%s: accepted' % what)
            ctx.count('refused')
        beside(ctx, f, parsed, set([i]), what)
        ctx.seen('kind', new in fmt.KINDS, err is None)
        return
    # the size
    s = len(d)
    v = rng.choice([s - 1, s + 1, 0, s // 2, s + 8, s - rng.randint(1, min(8, s)), s + rng.randint(1, 100), 0x00ffffff, rng.choice([0x01ffffff] * 20 + [0xffffffff]),
                    len(data), s ^ 1 << rng.randrange(16)])
    if v == s or v < 0:
        return
    out = data[:pos - 4] + struct.pack(e + 'I', v) + data[pos:]
    what = 'object %d has size %d instead of %d' % (i, v, s)
    ctx.seen('size', v < s, v > len(data))
    try:
        f = open_bytes(ctx, out)
    except Exception:
        ctx.count('refused')
        return
    for k in range(2):
        if refused(f, i)[0] is None:
            raise Violation('%s: accepted' % what)
    ctx.count('refused')
    # what comes before is where it was; what comes after must not be taken for something else
    g = parsed.graph
    for j in range(1, parsed.count + 1):
        if j < i:
            continue
        err, o = refused(f, j)
        if err is None and j > i:
            try:
                dd = fmt.compare(c12.stub(g.objs[j]), c12.stub(c12.View().one(o)))
            except Exception:
                continue
            if dd:
                raise Violation('%s: object %d reads as something else: %s' % (what, j, '; '.join(dd)))
    beside(ctx, f, parsed, set(range(i, parsed.count + 1)), what)


def beside(ctx, f, parsed, bad, what):
    """all objects but the bad ones (and what leads to them) read right"""
    g = parsed.graph
    for j in g.objs:
        if j in bad or set(fmt.refs_of(g.objs[j])) & bad:
            continue
        dd = fmt.compare(c12.stub(g.objs[j]), c12.stub(c12.View().one(f.read_object(j))))
        if dd:
            raise Violation('%s: object %d reads as something else: %s' % (what, j, '; '.join(dd)))
        ctx.count('read_beside_damage')


def usable(ctx, rng, n):
    g = libio.rand_graph(rng, rng.randint(3, 16), maxlist=3, root_cls=b'BINF' if rng.random() < 0.4 else b'ABIN', want=[b'ATTR'])
    order = libio.shuffled_order(g, rng) if rng.random() < 0.5 else None
    bo = rng.choice(['little', 'little', 'big'])
    data = fmt.build_file(g, bo, order)
    parsed = parse(data)
    g = parsed.graph
    cands = [i for i in g.objs if i != g.root]
    x = rng.choice(cands)
    cls, d, pos = parsed.chunks[x - 1]
    # damage the data, size unchanged
    for k in range(40):
        b = bytearray(d)
        if not b:
            return
        p = rng.choice([len(b) - 1, 0, 1, rng.randrange(len(b))])
        b[min(p, len(b) - 1)] = rng.choice(hostile.SPECIAL8)
        if rng.random() < 0.3:
            p = rng.randrange(len(b))
            b[p:] = bytearray(len(d) - p)
        m, err = model(cls, bytes(b), bo)
        if err is not None and structural(err):
            break
    else:
        return
    f = open_bytes(ctx, data[:pos] + bytes(b) + data[pos + len(d):])
    what = '%r (object %d) damaged: %s' % (cls, x, err)
    ctx.seen('usable', cls, bo)
    referrers = [(j, st) for j in g.objs for st, k in edit.steps_of(g.objs[j]) if k == x and j != x]
    below = reach_only_through(g, x)
    keep = {}

    def hit():
        """meet the damage in some way"""
        how = rng.choice(['number', 'ref', 'kind', 'write', 'list'])
        try:
            if how == 'number':
                f.read_object(x)
            elif how == 'ref' and referrers:
                j, st = rng.choice(referrers)
                edit.follow(f.read_object(j), st)
            elif how == 'kind':
                list(f.iter_class_ids([cls]))
            elif how == 'write':
                p = ctx.path('target')
                with open(p, 'wb') as h:
                    h.write(b'precious')
                try:
                    f.write(p, rng.choice(['little', 'big']))
                finally:
                    with open(p, 'rb') as h:
                        if h.read() != b'precious':
                            raise Violation('%s: the failing write touched its target' % what)
            elif how == 'list' and referrers:
                j, st = rng.choice(referrers)
                o = f.read_object(j)
                if st[0][0] == 'key':
                    list(o.values())
                else:
                    v = edit.follow(o, st[:-1]) if st[-1][0] == 'idx' else getattr(o, st[0][1])
                    if isinstance(v, list) and st[-1][0] == 'idx':
                        list(v)
                    else:
                        edit.follow(o, st)
            else:
                f.read_object(x)
        except Violation:
            raise
        except Exception:
            ctx.count('refused')
            return
        raise Violation('%s: not refused when met by %s' % (what, how))

    for k in range(rng.randint(1, 4)):
        hit()
        j = rng.choice(list(g.objs))
        if j != x and x not in fmt.refs_of(g.objs[j]):
            dd = fmt.compare(c12.stub(g.objs[j]), c12.stub(c12.View().one(f.read_object(j))))
            if dd:
                raise Violation('%s: object %d reads as something else: %s' % (what, j, '; '.join(dd)))
            ctx.count('read_beside_damage')
    # take it out
    for j, st in referrers:
        if j in below:
            continue
        keep[j] = o = f.read_object(j)
        h = edit.follow(o, st[:-1])
        k, name = st[-1]
        if k == 'attr':
            setattr(h, name, None)
        else:
            h[name] = None
        unref(g.objs[j], st)
    reach = set(fmt.order_of(g))
    if x in reach:
        return
    g.objs = dict((j, g.objs[j]) for j in reach)
    if not all(edit.valid(g.objs[j]) for j in keep if j in g.objs):
        return           # this kind needs its reference
    e = edit.Editor(ctx, f, g, rng)
    for k in range(rng.randint(0, 5)):
        e.step()
        if rng.random() < 0.3:
            if refused(f, x)[0] is None:
                raise Violation('%s: accepted after some edits' % what)
    for bo in ('little', 'big'):
        out = scen.save(ctx, f, bo)
        dd = fmt.compare(g, fmt.parse_file(out).graph)
        if dd:
            raise Violation('%s: written after it was taken out: %s' % (what, '; '.join(dd)))
    ctx.count('usable_files')


def unref(obj, st):
    """the model object with the reference at st null"""
    if st[0][0] == 'key':
        for it in obj.f['_items']:
            if it[0] == st[0][1]:
                it[2] = None
        return
    v = obj.f
    path = [s[1] for s in st]
    if obj.cls in (b'PRLS', b'TMCS'):
        path = ['_refs'] + path
    for p in path[:-1]:
        v = v[p]
    v[path[-1]] = None


def reach_only_through(g, x):
    """objects only reachable over x (and x)"""
    seen = set()
    todo = [g.root]
    while todo:
        i = todo.pop()
        if i in seen or i == x:
            continue
        seen.add(i)
        todo += fmt.refs_of(g.objs[i])
    return set(g.objs) - seen


WORKLOADS = {'object': object_case, 'marks': marks_case, 'random': random_case, 'truncate': truncate, 'header': header, 'frame': frame, 'usable': usable}
