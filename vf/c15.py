# -*- coding: utf-8 -*-
"""C15: all representations of a mob id denote the same id"""
import struct
import uuid

from . import fmt, libio
from .common import Violation

PROPERTY = 'C15'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring against a model: every representation of an id is compared with an independent model of its 32 bytes after every operation'
LEVEL_NOTE = 'Sampling of ids (biased to the special text forms) and of sequences of part assignments; all representations are compared after each step.'
RULE = ('parts: ids built from bytes, text (many spellings), integer, dictionary or new, then sequences of part assignments (refused ones included), '
        'all representations and aliases checked after each; order: equality, hash, order and use as dictionary keys over families of near equal ids; '
        'new: generated ids; file: ids saved in both byte orders and read by each reader. Distinct: id form x operation sequence class.')
ASSUMPTIONS = ['the text form of half-swapped ids (number creation method 0, material starting 060e2b347f7f) follows the AAF convention']
PLANS = {'quick': [('pure', 'parts', 4000, 2), ('extpure', 'parts', 1500, 1), ('pure', 'order', 1500, 1), ('extpure', 'order', 500, 1),
                   ('pure', 'new', 20, 1), ('extpure', 'new', 10, 1), ('pure', 'file', 250, 1), ('ext', 'file', 250, 1), ('pure', 'ambiguous', 5, 1)],
         'thorough': [('pure', 'parts', 100000, 8), ('extpure', 'parts', 40000, 8), ('pure', 'order', 30000, 8), ('extpure', 'order', 10000, 4),
                      ('pure', 'new', 400, 4), ('extpure', 'new', 100, 2), ('pure', 'file', 6000, 8), ('ext', 'file', 6000, 8), ('pure', 'ambiguous', 20, 1)]}
REQUIRED = {'ids_checked': 20000, 'parts_set': 10000, 'texts_parsed': 800, 'refused': 1000, 'new_ids': 10000, 'comparisons': 20000, 'file_ids': 900}
SWAP = bytes(bytearray([6, 0x0e, 0x2b, 0x34, 0x7f, 0x7f]))
PREFIX = u'urn:smpte:umid:'


def M():
    import avb.mobid
    return avb.mobid.MobID


def hexs(b):
    return u''.join(u'%02x' % x for x in bytearray(b))


def swapped(b):
    return b[11:12] == b'\0' and b[24:30] == SWAP


def wire(b):
    """the 32 bytes in the order the text shows them"""
    d = struct.pack('>IHH', *struct.unpack('<IHH', b[16:24]))
    return b[:16] + (b[24:] + d if swapped(b) else d + b[24:])


def text(b):
    h = hexs(wire(b))
    return PREFIX + u'.'.join(h[i:i + 8] for i in range(0, 64, 8))


def ambiguous(b):
    """a plain id whose text is that of a half-swapped one"""
    return not swapped(b) and b[11:12] == b'\0' and wire(b)[16:22] == SWAP


def rand_id(rng):
    b = bytearray(rng.getrandbits(8) for i in range(32))
    c = rng.random()
    if c < 0.35:
        b[0:13] = bytearray([6, 10, 0x2b, 0x34, 1, 1, 1, 5, 1, 1, 0x0f, 0x20, 0x13])
    elif c < 0.5:
        b[11] = 0
        b[24:30] = SWAP
        if rng.random() < 0.4:
            b[rng.choice([11, 24, 25, 26, 27, 28, 29])] ^= 1 << rng.randint(0, 7)
    elif c < 0.56:
        b[11] = 0
        b[16:22] = struct.pack('<IH', 0x060e2b34, 0x7f7f)
        if rng.random() < 0.6:
            b[rng.choice([11, 16, 17, 18, 19, 20, 21])] ^= 1 << rng.randint(0, 7)
        elif rng.random() < 0.5:
            b[24:30] = SWAP
    elif c < 0.62:
        b[24:30] = SWAP
    elif c < 0.7:
        b = bytearray(32)
        for k in range(rng.randint(0, 3)):
            b[rng.randrange(32)] = rng.choice([1, 0x80, 0xff, 0x0a])
    elif c < 0.74:
        b = bytearray(b'\xff' * 32)
    return bytes(b)


def as_dict(b):
    a, c, d = struct.unpack('<IHH', b[16:24])
    return {'SMPTELabel': list(bytearray(b[:12])), 'length': b[12], 'instanceHigh': b[13], 'instanceMid': b[14], 'instanceLow': b[15],
            'material': {'Data1': a, 'Data2': c, 'Data3': d, 'Data4': list(bytearray(b[24:]))}}


def check(ctx, m, b, how, amb=False):
    """all representations of m are those of the bytes b"""
    def eq(name, got, want):
        if got != want:
            raise Violation('%s: %s of the id %s is %r, expected %r' % (how, name, hexs(b), got, want))
    a, c, d = struct.unpack('<IHH', b[16:24])
    eq('bytes', bytes(m.bytes_le), b)
    eq('label', list(m.SMPTELabel), list(bytearray(b[:12])))
    eq('length', m.length, b[12])
    eq('instanceHigh', m.instanceHigh, b[13])
    eq('instanceMid', m.instanceMid, b[14])
    eq('instanceLow', m.instanceLow, b[15])
    eq('Data1', m.Data1, a)
    eq('Data2', m.Data2, c)
    eq('Data3', m.Data3, d)
    eq('Data4', list(m.Data4), list(bytearray(b[24:])))
    eq('material', m.material, uuid.UUID(fields=(a, c, d, b[24], b[25], int(hexs(b[26:]), 16))))
    eq('dictionary', m.to_dict(), as_dict(b))
    eq('integer', m.int, int(hexs(b), 16))
    eq('integer', int(m), int(hexs(b), 16))
    eq('urn', m.urn, text(b))
    eq('text', str(m), text(b))
    eq('repr', repr(m), text(b))
    C = M()
    n = C(bytes_le=b)
    if not (m == n and n == m) or m != n or m < n or m > n:
        raise Violation('%s: the id %s is not equal to one with the same bytes' % (how, hexs(b)))
    eq('hash', hash(m), hash(n))        # taken before and after every change
    eq('looked up', {n: 1}.get(m), 1)
    # and back, each on its own
    back(ctx, C(bytes_le=b), b, how, 'bytes')
    back(ctx, C(int=m.int), b, how, 'integer')
    n = C()
    n.int = m.int
    back(ctx, n, b, how, 'integer')
    n = C(bytes_le=b'\xa5' * 32)
    n.from_dict(m.to_dict())
    back(ctx, n, b, how, 'dictionary')
    n = C(bytes_le=b'\x5a' * 32)
    n.urn = m.urn
    if ambiguous(b):
        ctx.count('ambiguous_texts')
        if bytes(n.bytes_le) != b:
            if not (swapped(bytes(n.bytes_le)) and text(bytes(n.bytes_le)) == text(b)):
                raise Violation('%s: the text %s parses as %s' % (how, m.urn, hexs(n.bytes_le)))
            if amb:
                raise Violation('the text %s of the plain id %s is also that of a half-swapped id, and parses as %s' % (m.urn, hexs(b), hexs(n.bytes_le)), 'urn-ambiguity')
    else:
        back(ctx, n, b, how, 'text')
        back(ctx, C(m.urn), b, how, 'text')
    ctx.count('ids_checked')


def back(ctx, n, b, how, what):
    if bytes(n.bytes_le) != b:
        raise Violation('%s: the id %s made from its %s is %s' % (how, hexs(b), what, hexs(n.bytes_le)))


def spell(rng, b):
    """a spelling of the id's text"""
    t = text(b)
    c = rng.randint(0, 7)
    if c == 0:
        t = t.upper()
    elif c == 1:
        t = t[len(PREFIX):]
    elif c == 2:
        t = t.replace(u'.', u'')
    elif c == 3:
        t = PREFIX + hexs(wire(b))
    elif c == 4:
        t = t[len(PREFIX):].replace(u'.', u'-').upper()
    elif c == 5:
        t = u'0x' + hexs(wire(b))
    elif c == 6:
        t = u''.join(x.upper() if rng.random() < 0.5 else x for x in t)
    return t


PARTS = ['SMPTELabel', 'length', 'instanceHigh', 'instanceMid', 'instanceLow', 'Data1', 'Data2', 'Data3', 'Data4', 'material', 'int', 'urn', 'dict', 'bytes']


def set_part(ctx, rng, m, b, p):
    """sets part p of m to something; the bytes expected then"""
    b = bytearray(b)
    r = lambda n: bytearray(rng.choice([rng.getrandbits(8), 0, 0xff, 6, 0x0e, 0x2b, 0x34, 0x7f]) for i in range(n))
    one = {'length': 12, 'instanceHigh': 13, 'instanceMid': 14, 'instanceLow': 15}
    if p in one:
        v = r(1)[0]
        b[one[p]] = v
        setattr(m, p, v)
    elif p == 'SMPTELabel':
        v = r(12)
        if rng.random() < 0.5:
            v[11] = 0
        b[:12] = v
        m.SMPTELabel = rng.choice([list, bytes, bytearray, tuple])(v)
    elif p == 'Data4':
        v = r(8)
        if rng.random() < 0.4:
            v[:6] = SWAP
        b[24:] = v
        m.Data4 = rng.choice([list, bytes, bytearray, tuple])(v)
    elif p in ('Data1', 'Data2', 'Data3'):
        at, f = {'Data1': (16, '<I'), 'Data2': (20, '<H'), 'Data3': (22, '<H')}[p]
        n = struct.calcsize(f)
        v = rng.choice([rng.getrandbits(8 * n), 0, (1 << 8 * n) - 1, 1 << (8 * n - 1), 0x060e2b34 & ((1 << 8 * n) - 1), 0x7f7f])
        b[at:at + n] = struct.pack(f, v)
        setattr(m, p, v)
    elif p == 'material':
        v = r(16)
        b[16:] = v
        m.material = uuid.UUID(fields=struct.unpack('<IHHBB', bytes(v[:10])) + (int(hexs(v[10:]), 16),))
    elif p == 'int':
        b = bytearray(rand_id(rng))
        m.int = int(hexs(b), 16)
    elif p == 'urn':
        b = bytearray(rand_id(rng))
        while ambiguous(bytes(b)):
            b = bytearray(rand_id(rng))
        m.urn = spell(rng, bytes(b))
        ctx.count('texts_parsed')
    elif p == 'dict':
        b = bytearray(rand_id(rng))
        d = as_dict(bytes(b))
        if rng.random() < 0.4:
            for k in rng.sample(sorted(d), rng.randint(0, 3)):
                del d[k]
                at = {'SMPTELabel': (0, 12), 'length': (12, 13), 'instanceHigh': (13, 14), 'instanceMid': (14, 15), 'instanceLow': (15, 16),
                      'material': (16, 32)}[k]
                b[at[0]:at[1]] = b'\0' * (at[1] - at[0])
            if 'material' in d:
                for k in rng.sample(['Data1', 'Data2', 'Data3', 'Data4'], rng.randint(0, 2)):
                    del d['material'][k]
                    at = {'Data1': (16, 20), 'Data2': (20, 22), 'Data3': (22, 24), 'Data4': (24, 32)}[k]
                    b[at[0]:at[1]] = b'\0' * (at[1] - at[0])
        keep = repr(d)
        m.from_dict(d)
        if repr(d) != keep:
            raise Violation('from_dict changes the dictionary it was given')
    elif p == 'bytes':
        k = rng.randrange(32)
        b[k] = rng.getrandbits(8)
        m.bytes_le[k] = b[k]
    ctx.count('parts_set')
    return bytes(b)


def refuse(ctx, rng, m, b):
    bad = [('length', 256), ('length', -1), ('instanceHigh', 300), ('instanceMid', -5), ('instanceLow', 256), ('Data1', 1 << 32), ('Data1', -1),
           ('Data2', 65536), ('Data3', -1), ('Data4', [1] * 7), ('Data4', [1] * 9), ('Data4', [0] * 7 + [256]), ('SMPTELabel', [1] * 11),
           ('SMPTELabel', [1] * 13), ('SMPTELabel', [0] * 11 + [-1])]
    p, v = rng.choice(bad)
    try:
        setattr(m, p, v)
    except Exception:
        pass
    else:
        raise Violation('%s accepts %r: the id is now %s' % (p, v, hexs(m.bytes_le)))
    lo, hi = {'SMPTELabel': (0, 12), 'length': (12, 13), 'instanceHigh': (13, 14), 'instanceMid': (14, 15), 'instanceLow': (15, 16),
              'Data1': (16, 20), 'Data2': (20, 22), 'Data3': (22, 24), 'Data4': (24, 32)}[p]
    m.bytes_le[lo:hi] = b[lo:hi]        # the part itself may be anything after a refusal
    if bytes(m.bytes_le) != b:
        raise Violation('the refused %s = %r changed the id from %s to %s' % (p, v, hexs(b), hexs(m.bytes_le)))
    t = text(b)
    for x in (t[:-1], t + u'0', u'', PREFIX, t.replace(t[20], u'z'), t[:-8], t + t[len(PREFIX):]):
        try:
            n = M()(x)
        except Exception:
            ctx.count('refused')
        else:
            raise Violation('the text %r is accepted as the id %s' % (x, hexs(n.bytes_le)))
    ctx.count('refused')


def parts_case(ctx, rng, n):
    C = M()
    b = rand_id(rng)
    how = rng.choice(['bytes', 'text', 'integer', 'dictionary', 'new', 'empty'])
    if how == 'text' and ambiguous(b):
        how = 'bytes'
    if how == 'bytes':
        src = bytearray(b)
        m = C(bytes_le=src)
        src[5] ^= 0xff          # the id has bytes of its own
    elif how == 'text':
        s = spell(rng, b)
        m = C(s) if rng.random() < 0.5 else C(mobid=s)
        ctx.count('texts_parsed')
    elif how == 'integer':
        m = C(int=int(hexs(b), 16))
    elif how == 'dictionary':
        m = C()
        m.from_dict(as_dict(b))
    elif how == 'new':
        m = C.new()
        b = bytes(m.bytes_le)
    else:
        m = C()
        b = bytes(bytearray(32))
    check(ctx, m, b, 'from ' + how)
    trail = []
    for k in range(rng.randint(0, 6)):
        p = rng.choice(PARTS)
        other = C(bytes_le=m.bytes_le)
        keep = b
        d = m.to_dict()
        l, d4 = m.SMPTELabel, m.Data4
        b = set_part(ctx, rng, m, b, p)
        trail.append(p)
        check(ctx, m, b, 'from %s, then set %s' % (how, ', '.join(trail)))
        if bytes(other.bytes_le) != keep or d != as_dict(keep):
            raise Violation('setting %s of an id changes another id, or a dictionary, made from it earlier' % p)
        l[0] ^= 0xff
        d4[0] ^= 0xff
        d['material']['Data4'][0] ^= 0xff
        d['SMPTELabel'][0] ^= 0xff
        if bytes(m.bytes_le) != b:
            raise Violation('changing the label or Data4 read from an id earlier changes the id')
        if rng.random() < 0.3:
            refuse(ctx, rng, m, b)
    ctx.seen(how, tuple(trail[:3]), swapped(b), ambiguous(b))


def order_case(ctx, rng, n):
    C = M()
    base = rand_id(rng)
    fam = [base]
    for k in range(5):
        x = bytearray(rng.choice(fam))
        x[rng.randrange(32)] ^= 1 << rng.randint(0, 7)
        fam.append(bytes(x))
    fam.append(base[16:] + base[:16])
    fam.append(base)
    ids = [C(bytes_le=x) for x in fam]
    for x, a in zip(fam, ids):
        for y, c in zip(fam, ids):
            want = (x == y, x != y, x < y, x <= y, x > y, x >= y)
            got = (a == c, a != c, a < c, a <= c, a > c, a >= c)
            if got != want:
                raise Violation('%s and %s compare (==,!=,<,<=,>,>=) as %r, expected %r' % (hexs(x), hexs(y), got, want))
            if x == y and hash(a) != hash(c):
                raise Violation('two ids %s hash differently' % hexs(x))
            ctx.count('comparisons')
        for o in (None, 0, a.int, str(a), x, bytearray(x), a.material):
            if a == o or not a != o:
                raise Violation('the id %s is equal to %r' % (hexs(x), o))
    if [bytes(i.bytes_le) for i in sorted(ids)] != sorted(fam):
        raise Violation('sorting ids does not order them by value')
    d = {}
    for k, i in enumerate(ids):
        d[i] = k
    if len(d) != len(set(fam)) or len(set(ids)) != len(set(fam)):
        raise Violation('%d different ids make %d dictionary keys' % (len(set(fam)), len(d)))
    for k, x in enumerate(fam):
        last = len(fam) - 1 - fam[::-1].index(x)
        if d[C(bytes_le=x)] != last:
            raise Violation('looking an equal id up in a dictionary finds another one')
    m = C(bytes_le=base)
    h = hash(m)
    m.Data1 = (m.Data1 + 1) & 0xffffffff
    if m == ids[0]:
        raise Violation('an id with another Data1 is still equal')
    m.Data1 = (m.Data1 - 1) & 0xffffffff
    if m != ids[0] or hash(m) != h:
        raise Violation('an id set to another value and back is not equal to itself')
    ctx.seen('order', fam[1][:2], base[16:18])


def new_case(ctx, rng, n):
    C = M()
    seen = set()
    for k in range(500):
        m = C.new()
        b = bytes(m.bytes_le)
        if b[:16] != bytes(bytearray([6, 10, 0x2b, 0x34, 1, 1, 1, 5, 1, 1, 0x0f, 0x20, 0x13, 0, 0, 0])):
            raise Violation('a new id has the label %s' % hexs(b[:16]))
        if m.material.version != 4 or m.material.variant != uuid.RFC_4122:
            raise Violation('the material number %s of a new id is not a random uuid' % m.material)
        seen.add(b)
        ctx.new.add(b)
        ctx.count('new_ids')
        if k % 50 == 0:
            check(ctx, m, b, 'new')
    f = ctx.avb.open()
    for k in range(20):
        for o in (f.create.Composition(), f.create.Composition(mob_type='MasterMob')):
            seen.add(bytes(o.mob_id.bytes_le))
    if len(seen) != 540:
        raise Violation('%d new ids are only %d different ones' % (540, len(seen)))
    if len(ctx.new) != ctx.counters['new_ids']:
        raise Violation('a new id was generated before')


def file_case(ctx, rng, n):
    """ids of mobs and source clips saved, and read by this reader"""
    bo = ('little', 'big')[n % 2]
    C = M()
    f = ctx.avb.open()
    f.content = f.create.Bin()
    a = f.content.attributes = f.create.Attributes()
    want = {}
    for k in range(rng.randint(2, 6)):
        b = rand_id(rng)
        o = rng.choice([f.create.Composition, f.create.SourceClip])()
        o.mob_id = C(bytes_le=b)
        a['o%d' % k] = o
        want['o%d' % k] = b
    p = ctx.path('m.avb')
    f.write(p, bo)
    g = ctx.avb.open(p) if ctx.mode == 'pure' else ctx.avb.open(p, use_ext=ctx.mode != 'extpure')
    with g:
        for k in want:
            m = g.content.attributes[k].mob_id
            check(ctx, m, want[k], '%s endian file, %s reader' % (bo, ctx.mode))
            if not m == C(bytes_le=want[k]) or hash(m) != hash(C(bytes_le=want[k])):
                raise Violation('a loaded id differs from the id with the same bytes')
            ctx.count('file_ids')
    ctx.seen('file', bo, tuple(sorted((swapped(x), x[11]) for x in want.values())))


def init(ctx):
    ctx.new = set()


def ambiguous_case(ctx, rng, n):
    """ids that share their text with another id (a known finding of the text form itself)"""
    b = bytearray(rng.getrandbits(8) for i in range(32))
    b[11] = 0
    b[16:22] = struct.pack('<IH', 0x060e2b34, 0x7f7f)
    b[24] = 7
    check(ctx, M()(bytes_le=b), bytes(b), 'ambiguous text', True)


WORKLOADS = {'ambiguous': ambiguous_case, 'parts': parts_case, 'order': order_case, 'new': new_case, 'file': file_case}
