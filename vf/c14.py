# -*- coding: utf-8 -*-
"""C14: strings, numbers, rates, dates and uuids survive encoding exactly"""
import datetime
import io
import math
import os
import struct
import time
import uuid
from decimal import Decimal
from fractions import Fraction

from . import fmt, libio
from .common import Skip, Violation

PROPERTY = 'C14'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: executed encodings and decodings of every scalar type compared with an independent encoder and exact rational arithmetic'
LEVEL_NOTE = ('Boundary-biased sampling of each scalar type directly and through saved files; all 16 bit values, all Mac Roman characters and every '
              'hour around daylight saving changes are covered exhaustively over the cases.')
RULE = ('scalar: values of each type (boundaries, random, not storable ones) encoded and decoded by the byte level functions in both byte orders and '
        'compared with an independent encoder; rate: decimals, arbitrary floats and fractions against the nearest decimal; date: time stamps in '
        'many time zones around clock changes; field: boundary values set on each scalar field of each kind, saved, and decoded by the reference '
        'model and by the library. Distinct: type x byte order x value class, zone x kind of date, field x value class.')
ASSUMPTIONS = ['rates are held with at most six decimals (the format\'s own convention)', 'NUL characters at the ends of strings are padding']
PLANS = {'quick': [('pure', 'scalar', 1200, 2), ('extpure', 'scalar', 300, 1), ('pure', 'rate', 1200, 1), ('extpure', 'rate', 300, 1),
                   ('pure', 'date', 400, 1), ('ext', 'date', 200, 1), ('pure', 'text', 250, 1), ('ext', 'text', 250, 1),
                   ('pure', 'field', 3000, 3), ('ext', 'field', 3000, 3)],
         'thorough': [('pure', 'scalar', 30000, 8), ('extpure', 'scalar', 5000, 4), ('pure', 'rate', 60000, 8), ('extpure', 'rate', 9000, 4),
                      ('pure', 'date', 12000, 8), ('ext', 'date', 8000, 8), ('pure', 'text', 6000, 4), ('ext', 'text', 6000, 4),
                      ('pure', 'field', 60000, 8), ('ext', 'field', 60000, 8)]}
REQUIRED = {'twins': 2000, 'scalars': 40000, 'refusals': 2000, 'rates': 20000, 'dates': 8000, 'texts': 2000, 'fields_saved': 3000, 'fields_refused': 400}

INTS = {'u8': ('B', 0, 255), 's8': ('b', -128, 127), 'u16': ('H', 0, 0xffff), 's16': ('h', -0x8000, 0x7fff),
        'u32': ('I', 0, 0xffffffff), 's32': ('i', -0x80000000, 0x7fffffff),
        'u64': ('Q', 0, 2**64 - 1), 's64': ('q', -2**63, 2**63 - 1)}


def io_of(ctx, bo):
    import avb.ioctx
    return avb.ioctx.AVBIOContext(bo)


def put(fn, *a):
    b = io.BytesIO()
    fn(b, *a)
    return b.getvalue()


def refused(ctx, fn, v, what, *a):
    try:
        data = put(fn, v, *a)
    except Exception:
        ctx.count('refusals')
        return
    raise Violation('%s: %.80r cannot be stored but was written as %r' % (what, v, data[:40]))


def get(fn, data, what, *a):
    b = io.BytesIO(data)
    v = fn(b, *a)
    if b.tell() != len(data):
        raise Violation('%s: read %d of %d bytes' % (what, b.tell(), len(data)))
    return v


def check(ctx, wr, rd, v, want, what, eq=None, *a):
    got = put(wr, v, *a)
    if got != want:
        raise Violation('%s: %.120r is written as %r, expected %r' % (what, v, got[:60], want[:60]))
    back = get(rd, want, what, *a)
    ok = eq(back, v) if eq else (type(back) is type(v) and back == v)
    if not ok:
        raise Violation('%s: %.120r reads back as %.120r' % (what, v, back))
    ctx.count('scalars')


# ------------------------------------------------------------------- scalars
def rand_int(rng, lo, hi):
    c = rng.random()
    if c < 0.3:
        return rng.choice([lo, hi, lo + 1, hi - 1, 0, 1])
    if c < 0.6:
        return min(hi, max(lo, rng.choice([1, -1]) * (1 << rng.randint(0, 64)) + rng.randint(-1, 1)))
    return rng.randint(lo, hi)


def rand_double(rng):
    c = rng.random()
    if c < 0.3:
        return rng.choice([0.0, -0.0, float('inf'), float('-inf'), 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 0.1, 1 / 3.0])
    if c < 0.7:
        return struct.unpack('<d', struct.pack('<Q', rng.getrandbits(64)))[0]
    return rng.uniform(-1e6, 1e6)


def rand_mac(rng, n):
    return inner_nul(rng, [rng.choice(fmt.MAC_CHARS) for i in range(n)])


def inner_nul(rng, chars):
    """a NUL at the ends pads, one inside is a character as any other"""
    if len(chars) > 2 and rng.random() < 0.15:
        for i in range(rng.randint(1, 3)):
            chars[rng.randint(1, len(chars) - 2)] = u'\0'
    return u''.join(chars)


def rand_uni(rng, n):
    out = []
    while len(out) < n:
        c = rng.choice([rng.randint(1, 0x7f), rng.randint(0x80, 0x7ff), rng.randint(0x800, 0xffff), rng.randint(0x10000, 0x10ffff)])
        if not 0xd800 <= c < 0xe000:
            out.append(chr(c))
    return inner_nul(rng, out)


def twin(rng):
    """text, other text whose Mac Roman bytes are the utf-8 of the first, those bytes"""
    u = rand_uni(rng, rng.randint(1, 12)).replace(u'\0', u'x') + u'\u00e9'
    b = u.encode('utf-8')
    return u, u''.join(chr(x) if x < 128 else fmt.MAC_HIGH[x - 128] for x in bytearray(b)), b


MAC_TABLE = dict((c, 128 + i) for i, c in enumerate(fmt.MAC_HIGH))


def mac_bytes(s):
    return bytes(bytearray(MAC_TABLE[c] if c in MAC_TABLE else ord(c) for c in s))


def uuid_parts(u, bo):
    e = '<' if bo == 'little' else '>'
    return e, struct.pack(e + 'I', u.int >> 96), struct.pack(e + 'H', (u.int >> 80) & 0xffff), struct.pack(
        e + 'H', (u.int >> 64) & 0xffff), struct.pack('>Q', u.int & (2**64 - 1))


def scalar_case(ctx, rng, n):
    bo = ('little', 'big')[n % 2]
    e = '<' if bo == 'little' else '>'
    c = io_of(ctx, bo)
    # every 16 bit value over the first 1024 cases
    for v in range((n // 2 % 512) * 128, (n // 2 % 512) * 128 + 128):
        check(ctx, c.write_u16, c.read_u16, v, struct.pack(e + 'H', v), 'u16 ' + bo)
        check(ctx, c.write_s16, c.read_s16, v - 0x8000, struct.pack(e + 'h', v - 0x8000), 's16 ' + bo)
    for name in sorted(INTS):
        f, lo, hi = INTS[name]
        w, r = getattr(c, 'write_' + name), getattr(c, 'read_' + name)
        for k in range(8):
            v = rand_int(rng, lo, hi)
            check(ctx, w, r, v, struct.pack(e + f, v), name + ' ' + bo)
            ctx.seen(name, bo, v.bit_length(), v < 0)
        for v in (lo - 1, hi + 1, lo - rng.getrandbits(70) - 1, hi + rng.getrandbits(70) + 1):
            refused(ctx, w, v, name + ' ' + bo)
        size = struct.calcsize(f)
        for k in range(size):
            try:
                v = r(io.BytesIO(b'\x01' * k))
            except Exception:
                continue
            raise Violation('%s read from %d bytes gives %r' % (name, k, v))
    for v in (True, False):
        check(ctx, c.write_bool, c.read_bool, v, b'\x01' if v else b'\x00', 'bool')
    for k in range(6):
        v = rand_double(rng)
        bits = lambda x: struct.pack('<d', x)
        check(ctx, c.write_double, c.read_double, v, struct.pack(e + 'd', v), 'double ' + bo,
              lambda a, b: isinstance(a, float) and (bits(a) == bits(b) or (a != a and b != b)))
        ctx.seen('double', bo, math.frexp(v)[1] // 50 if v == v and abs(v) != float('inf') else repr(v))
    for k in range(4):
        v = [rand_int(rng, -0x8000, 0x7fff) for i in range(4)]
        check(ctx, c.write_rect, c.read_rect, v, struct.pack(e + '5h', 1, *v), 'rect ' + bo, lambda a, b: list(a) == b)
        v = [rand_int(rng, 0, 0xffff) for i in range(3)]
        check(ctx, c.write_rgb_color, c.read_rgb_color, v, struct.pack(e + 'h3H', 1, *v), 'colour ' + bo, lambda a, b: list(a) == b)
    refused(ctx, c.write_rect, [1, 2, 3, 0x8000], 'rect')
    refused(ctx, c.write_rect, [-0x8001, 2, 3, 4], 'rect')
    refused(ctx, c.write_rect, [1, 2, 3], 'rect')
    refused(ctx, c.write_rect, [1, 2, 3, 4, 5], 'rect')
    refused(ctx, c.write_rgb_color, [0, -1, 0], 'colour')
    refused(ctx, c.write_rgb_color, [0, 0, 0x10000], 'colour')
    refused(ctx, c.write_rgb_color, [0, 0], 'colour')
    refused(ctx, c.write_rgb_color, [0, 0, 0, 0], 'colour')
    for k in range(4):
        u = uuid.UUID(int=rng.choice([rng.getrandbits(128), 0, 2**128 - 1, 1 << rng.randint(0, 127)]))
        x, a, b, d, t = uuid_parts(u, bo)
        check(ctx, c.write_raw_uuid, c.read_raw_uuid, u, a + b + d + t, 'raw uuid ' + bo)
        check(ctx, c.write_uuid, c.read_uuid, u, b'H' + a + b'F' + b + b'F' + d + b'A' + struct.pack(e + 'i', 8) + t, 'uuid ' + bo)
        ctx.seen('uuid', bo, u.int.bit_length())
    v = bytes(bytearray(rng.randint(0, 255) for i in range(4)))
    check(ctx, c.write_fourcc, c.read_fourcc, v, v[::-1] if bo == 'little' else v, 'four character code ' + bo)
    for v in (b'', b'abc', b'abcde'):
        refused(ctx, c.write_fourcc, v, 'four character code')
    string_case(ctx, rng, c, e)
    mob_case(ctx, rng, c, e, bo)


def string_case(ctx, rng, c, e):
    for k in range(6):
        big = rng.random() < 0.1
        s = rand_mac(rng, rng.choice([65534, 65533, 32768, 4096, 256]) if big else rng.randint(0, 30))
        b = mac_bytes(s)
        check(ctx, c.write_string, c.read_string, s, struct.pack(e + 'H', len(b)) + b, 'Mac Roman string')
        ctx.seen('mac', e, len(s).bit_length(), any(x in MAC_TABLE for x in s))
        s = rand_uni(rng, rng.choice([16000, 8000, 300]) if big else rng.randint(1, 20))
        b = b'\0\0' + s.encode('utf-8')
        if len(b) > 65534:
            refused(ctx, c.write_string, s, 'long utf-8 string', 'utf-8')
        else:
            check(ctx, c.write_string, c.read_string, s, struct.pack(e + 'H', len(b)) + b, 'utf-8 string', None, 'utf-8')
        ctx.seen('utf8', e, len(b).bit_length())
    # the same bytes are different text in each encoding, whichever is met first
    for k in range(4):
        u, m, b = twin(rng)
        pair = [(m, None), (u, 'utf-8')]
        rng.shuffle(pair)
        for v, enc in pair + pair[:1]:
            if enc:
                check(ctx, c.write_string, c.read_string, v, struct.pack(e + 'H', len(b) + 2) + b'\0\0' + b, 'utf-8 string', None, enc)
            else:
                check(ctx, c.write_string, c.read_string, v, struct.pack(e + 'H', len(b)) + b, 'Mac Roman string')
        ctx.count('twins')
    for ch in (u'\u0100', u'\u65e5', u'\U0001f3ac', u'\u0081', u'\ud800'):
        refused(ctx, c.write_string, rand_mac(rng, 3) + ch + rand_mac(rng, 2), 'text outside Mac Roman')
    refused(ctx, c.write_string, u'a\ud800', 'lone surrogate', 'utf-8')
    for m in (65535, 65536, 70000, 131072 + 3):
        refused(ctx, c.write_string, u'x' * m, 'string of %d bytes' % m)
    for m in (65533, 65534, 65536 - 2 + 3):
        refused(ctx, c.write_string, u'x' * m, 'utf-8 string of %d bytes' % m, 'utf-8')
    s = u'y' * 65532
    check(ctx, c.write_string, c.read_string, s, struct.pack(e + 'H', 65534) + b'\0\0' + s.encode('ascii'), 'longest utf-8 string', None, 'utf-8')


def mob_case(ctx, rng, c, e, bo):
    import avb.mobid
    raw = bytes(bytearray(rng.getrandbits(8) for i in range(32)))
    m = avb.mobid.MobID(bytes_le=raw)
    a, b, d = struct.unpack('<IHH', raw[16:24])
    want = b'A' + struct.pack(e + 'i', 12) + raw[:12] + b''.join(b'D' + raw[i:i + 1] for i in (12, 13, 14, 15)) + \
        b'H' + struct.pack(e + 'I', a) + b'F' + struct.pack(e + 'H', b) + b'F' + struct.pack(e + 'H', d) + b'A' + struct.pack(e + 'i', 8) + raw[24:]
    check(ctx, c.write_mob_id, c.read_mob_id, m, want, 'mob id ' + bo, lambda x, y: bytes(x.bytes_le) == raw)


# --------------------------------------------------------------------- rates
def stored(data, e):
    if len(data) != 6:
        raise Violation('a rate takes %d bytes' % len(data))
    m, x = struct.unpack(e + 'ih', data)
    return m, x, Fraction(m) * Fraction(10) ** x


def rand_rate(rng):
    """(value, exact value or None)"""
    c = rng.random()
    if c < 0.25:
        x = Fraction(rng.choice([24, 25, 30, 48, 50, 60, 72, 100, 120, 24000, 44100, 48000, 96000, 12, 15]))
        if rng.random() < 0.5:
            x = x * 1000 / 1001
            v = rng.choice([float(x), round(float(x), 2), round(float(x), 3), round(float(x), 6)])
        else:
            v = rng.choice([float(x), int(x)])
        return v
    if c < 0.6:
        k = rng.randint(0, 6)
        m = rng.randint(1, min(2**31 - 1, 10 ** rng.randint(1, 10)))
        v = float(Fraction(m, 10 ** k))
        return -v if rng.random() < 0.2 else v
    if c < 0.7:
        return rng.choice([0, 0.0, -0.0, 1, 2**31 - 1, -2**31, float(2**31 - 1), 0.5, 0.1, 0.000001, 1e-6, 59.94, 5994.0, 59.94006, 0.05994, 599.4, 29.97, 23.976, 1.1, 2147483.647])
    if c < 0.85:
        return rng.uniform(0, 10 ** rng.randint(0, 9))
    if c < 0.9:
        return rng.randint(0, 2**31 - 1)
    return float(rng.randint(1, 2000)) / rng.randint(1, 2000)


def rate_case(ctx, rng, n):
    bo = ('little', 'big')[n % 2]
    e = '<' if bo == 'little' else '>'
    c = io_of(ctx, bo)
    for k in range(40):
        v = rand_rate(rng)
        x = Fraction(v)
        got, ex, r = stored(put(c.write_exp10_encoded_float, v), e)
        d = 6
        while d and abs(x) * 10 ** d >= 0x7fffffff:
            d -= 1
        err = abs(r - x)
        # the exact neighbour, give or take what the arithmetic of doubles can do
        if err > Fraction(1, 2 * 10 ** d) + abs(x) * Fraction(1, 10**13):
            raise Violation('rate %r is stored as %de%d, off by %.3g: the nearest decimal with %d decimals is closer' % (v, got, ex, float(err), d))
        near = Fraction(int(round(x * 10 ** d)), 10 ** d)
        if abs(near - x) <= abs(x) * Fraction(1, 10**15) and r != near:
            raise Violation('rate %r is stored as %de%d, not as the decimal %s it is' % (v, got, ex, near))
        b = struct.pack(e + 'ih', got, ex)
        back = get(c.read_exp10_encoded_float, b, 'rate')
        if abs(Fraction(back) - r) > abs(r) * Fraction(1, 10**14):
            raise Violation('rate stored as %de%d reads back as %r' % (got, ex, back))
        again, ex2, r2 = stored(put(c.write_exp10_encoded_float, back), e)
        if r2 != r:
            raise Violation('rate %r is stored as %de%d; read back (%r) and stored again it is %de%d' % (v, got, ex, back, again, ex2))
        ctx.count('rates')
        ctx.seen('rate', bo, ex, abs(got).bit_length(), got < 0)
    for k in range(6):
        m, x = rng.randint(-2**31, 2**31 - 1), rng.randint(-9, 0)
        back = get(c.read_exp10_encoded_float, struct.pack(e + 'ih', m, x), 'rate')
        if abs(Fraction(back) - Fraction(m, 10 ** -x)) > abs(Fraction(m, 10 ** -x)) * Fraction(1, 10**14):
            raise Violation('%de%d reads as %r' % (m, x, back))
        m, x = rng.randint(-2000, 2000), rng.randint(1, 6)
        back = get(c.read_exp10_encoded_float, struct.pack(e + 'ih', m, x), 'rate')
        if back != m * 10 ** x:
            raise Violation('%de%d reads as %r' % (m, x, back))
    for v in (2**31, -2**31 - 1, 1e10, 3e9, float('nan'), float('inf'), float('-inf'), 1e300, u'25', None):
        refused(ctx, c.write_exp10_encoded_float, v, 'rate')


# --------------------------------------------------------------------- dates
ZONES = ['UTC0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'AEST-10AEDT,M10.1.0,M4.1.0/3', '<+1030>-10:30<+11>-11,M10.1.0,M4.1.0',
         'IST-5:30', 'NPT-5:45', '<-12>12', '<+14>-14', 'NST3:30NDT,M3.2.0,M11.1.0', 'PST8PDT,M3.2.0,M11.1.0', 'WET0WEST,M3.5.0/1,M10.5.0',
         'XXX-1YYY-3,M4.1.0,M9.1.0', '<-03>3<-02>,M3.5.0/-2,M10.5.0/-1']
FILES = ['Europe/London', 'America/New_York', 'Australia/Lord_Howe', 'Africa/Casablanca', 'Asia/Pyongyang', 'Pacific/Apia', 'Europe/Dublin', 'America/Caracas',
         'Antarctica/Troll', 'Asia/Kathmandu']


def set_zone(z):
    if z is None:
        os.environ.pop('TZ', None)
    else:
        os.environ['TZ'] = z
    time.tzset()


def changes(rng, lo, hi):
    """a time stamp at which the offset of the current zone changes, or None"""
    off = lambda t: time.localtime(t).tm_gmtoff
    if off(lo) == off(hi):
        hi = lo + 200 * 86400
        if hi > 0xffffffff or off(lo) == off(hi):
            return None
    while hi - lo > 1:
        m = (lo + hi) // 2
        if off(m) == off(lo):
            lo = m
        else:
            hi = m
    return hi


def date_case(ctx, rng, n):
    bo = ('little', 'big')[n % 2]
    e = '<' if bo == 'little' else '>'
    z = rng.choice(ZONES + FILES)
    set_zone(z)
    try:
        zone_dates(ctx, rng, n, bo, e, z)
    finally:
        set_zone(None)


def zone_dates(ctx, rng, n, bo, e, z):
    c = io_of(ctx, bo)
    stamps = [0, 1, 86400, 0x7fffffff, 0x80000000, 0xffffffff] + [rng.getrandbits(32) for i in range(10)]
    for k in range(4):
        t = rng.randint(86400, 0xf0000000)
        t = changes(rng, t, t + 180 * 86400)
        if t:
            ctx.count('clock_changes')
            stamps += [t + d for d in (-7200, -3601, -3600, -1801, -1800, -1, 0, 1, 1799, 1800, 3599, 3600, 7199, 7200)]
            stamps += [t + rng.randint(-10000, 10000) for i in range(6)]
    for t in stamps:
        lt = time.localtime(t)
        want = (lt.tm_year, lt.tm_mon, lt.tm_mday, lt.tm_hour, lt.tm_min, lt.tm_sec)
        data = struct.pack(e + 'I', t)
        d = get(c.read_datetime, data, 'date')
        if (d.year, d.month, d.day, d.hour, d.minute, d.second) != want or d.microsecond:
            raise Violation('zone %s: the time stamp %d reads as %r, local time is %r' % (z, t, d, want))
        got = put(c.write_datetime, d)
        if got != data:
            raise Violation('zone %s: the time stamp %d reads as %r and is written as %d' % (z, t, d, struct.unpack(e + 'I', got)[0]))
        got = put(c.write_datetime, d.replace(microsecond=rng.choice([1, 499999, 500000, 999999])))
        if got != data:
            raise Violation('zone %s: %r and some microseconds is written as %d, not %d' % (z, d, struct.unpack(e + 'I', got)[0], t))
        ctx.count('dates')
        ctx.seen('date', z, lt.tm_isdst, t >> 28, d.fold)
    for d in (datetime.datetime(1969, 12, 30), datetime.datetime(1900, 1, 1), datetime.datetime(2106, 2, 9), datetime.datetime(2500, 7, 1),
              datetime.datetime(9000, 1, 1)):
        refused(ctx, c.write_datetime, d, 'date')
    # through a file: the same instants, whatever the zone
    g = fmt.Graph({1: fmt.generate(b'CMPO', rng, lambda f, k, r: None), 2: fmt.generate(b'BINF', rng, lambda f, k, r: None)}, 2)
    names = [k for k in g.objs[1].f if k in libio.STAMP_FIELDS]
    if not names:
        return
    g.objs[2].f['items'] = []
    g.objs[2].f['attributes'] = fmt.Ref(3)
    g.objs[3] = fmt.Obj(b'ATTR', {'_items': [[u'm', 3, fmt.Ref(1)]]})
    for k in names:
        g.objs[1].f[k] = rng.choice(stamps)
    f = libio.open_bytes(ctx.avb, fmt.build_file(g, bo), ctx.mode)
    m = f.content.attributes['m']
    p = ctx.path('d.avb')
    fresh = rng.random() < 0.5
    if fresh:
        h = ctx.avb.open()
        h.content = f.content.copy(h)
        h.content.attributes['m'] = m.copy(h)
        h.write(p, rng.choice(['little', 'big']))
    else:
        for k in names:
            setattr(m, k, getattr(m, k))
        f.write(p, rng.choice(['little', 'big']))
    with open(p, 'rb') as h:
        pf = fmt.parse_file(h.read())
    o = [x for x in pf.graph.objs.values() if x.cls == b'CMPO']
    for k in names:
        if o[0].f[k] != g.objs[1].f[k]:
            raise Violation('zone %s: the date %s stored as %d is saved as %d' % (z, k, g.objs[1].f[k], o[0].f[k]))
    ctx.count('dates_saved', len(names))


# ---------------------------------------------------------------------- text
ALLMAC = u''.join(chr(i) for i in range(1, 128)) + fmt.MAC_HIGH


def text_case(ctx, rng, n):
    """text through files: every character, as name and as attribute name and value"""
    bo = ('little', 'big')[n % 2]
    f = ctx.avb.open()
    f.content = b = f.create.Bin()
    a = f.create.Attributes()
    b.attributes = a
    part = ALLMAC[n * 32 % 255:n * 32 % 255 + 32]
    words = [part, ALLMAC if n % 7 == 0 else rand_mac(rng, rng.randint(1, 60)), rand_mac(rng, rng.choice([1, 255, 256, 1000, 30000, 65534]))]
    want = {}
    for w in words:
        k = w[:300]
        a[k] = w
        want[k] = w
    c = f.create.Composition()
    c.name = rng.choice(words)
    a['mob'] = c
    l = f.create.MacFileLocator()
    l.path = rng.choice(words)
    l.path_utf8 = rand_uni(rng, rng.choice([1, 2, 3, 50, 3000]))
    if rng.random() < 0.4:
        l.path_utf8, w, x = twin(rng)
        if rng.random() < 0.5:
            l.path = w
        else:
            a[w] = want[w] = w
    a['loc'] = l
    p = ctx.path('t.avb')
    f.write(p, bo)
    g = ctx.avb.open(p, use_ext=ctx.mode != 'extpure') if ctx.mode != 'pure' else ctx.avb.open(p)
    with g:
        at = g.content.attributes
        for k in want:
            if at.get(k) != want[k]:
                raise Violation('%s endian, %s reader: the attribute %r holding %r reads back as %r' % (bo, ctx.mode, k[:40], want[k][:40], at.get(k)))
            ctx.count('texts')
        if at['mob'].name != c.name:
            raise Violation('%s endian, %s reader: the name %r reads back as %r' % (bo, ctx.mode, c.name[:60], at['mob'].name))
        if at['loc'].path != l.path or at['loc'].path_utf8 != l.path_utf8:
            raise Violation('%s endian, %s reader: the path %r / %r reads back as %r / %r' % (
                bo, ctx.mode, l.path[:60], l.path_utf8[:60], at['loc'].path[:60], at['loc'].path_utf8[:60]))
        ctx.count('texts', 3)
    ctx.seen('text', bo, tuple(len(w) for w in words), n * 32 % 255)
    for k, v in (('bad', u'a\u0100'), (u'a\u65e5', 'x'), ('long', u'x' * 65535), (u'k' * 70000, 1)):
        a[k] = v
        try:
            f.write(p, bo)
        except Exception:
            ctx.count('refusals')
        else:
            raise Violation('the attribute %.20r: %.20r cannot be stored but the write succeeded' % (k, v))
        del a[k]
    f.write(p, bo)


# --------------------------------------------------------------------- field
class Kinds(libio._All):
    def __init__(self, *a):
        libio._All.__init__(self, *a)
        self.kinds = {}
        self.at = ()

    def field(self, kind, name):
        self.kinds[self.at + (name,)] = kind
        libio._All.field(self, kind, name)

    def items(self, name, cnt, fn, count_of=None):
        keep, self.at = self.at, self.at + (name,)
        libio._All.items(self, name, cnt, fn, count_of)
        self.at = keep


def kinds_of(cls, _cache={}):
    if cls not in _cache:
        g = Kinds(cls, libio._R(1), lambda n, c, r: None)
        fmt.KINDS[cls][1](g)
        _cache[cls] = g.kinds
    return _cache[cls]


ALLFIELDS = []


def fields():
    if not ALLFIELDS:
        for cls in sorted(fmt.KINDS):
            if cls in (b'ATTR', b'PRLS', b'TMCS'):
                continue
            for k in sorted(kinds_of(cls)):
                if kinds_of(cls)[k] not in ('ref',):
                    ALLFIELDS.append((cls, k, kinds_of(cls)[k]))
    return ALLFIELDS


def good_value(kind, rng, name):
    """(model value) of a field of the kind, at a boundary"""
    if kind in fmt.RANGE:
        return rand_int(rng, *fmt.RANGE[kind])
    if kind == 'double':
        v = rand_double(rng)
        return v if v == v else 0.0
    if kind in ('str', 'strz', 'strn'):
        return rand_mac(rng, rng.choice([1, 2, 40, 300, 65534]))
    if kind == 'utf8':
        return rand_uni(rng, rng.choice([1, 2, 40, 300]))
    if kind == 'rect':
        return [rand_int(rng, -0x8000, 0x7fff) for i in range(4)]
    if kind == 'color':
        return [rand_int(rng, 0, 0xffff) for i in range(3)]
    if kind == 'datetime':
        return rng.choice([0, 1, 0x7fffffff, 0x80000000, 0xffffffff, rng.getrandbits(32)])
    if kind == 'exp10':
        return fmt.rand_rate(rng)
    if kind == 'bool':
        return rng.random() < 0.5
    if kind == 'rawuuid':
        return uuid.UUID(int=rng.choice([rng.getrandbits(128), 0, 2**128 - 1]))
    if kind == 'mobid':
        return fmt.rand_mobid(rng)
    return None


def bad_value(kind, rng):
    """library values that do not fit"""
    if kind in fmt.RANGE:
        lo, hi = fmt.RANGE[kind]
        return rng.choice([lo - 1, hi + 1, lo - 1 - rng.getrandbits(66), hi + 1 + rng.getrandbits(66)])
    if kind == 'double':
        return rng.choice([u'1.0', [1.0]])
    if kind in ('str', 'strz', 'strn'):
        return rng.choice([u'a\u0100', u'\u65e5\u672c', u'x' * 65535, u'x' * 70000])
    if kind == 'utf8':
        return rng.choice([u'x' * 65533, u'\u65e5' * 30000, u'\udc00'])
    if kind == 'rect':
        return rng.choice([[0, 0, 0, 0x8000], [-0x8001, 0, 0, 0], [1, 2, 3], [1, 2, 3, 4, 5]])
    if kind == 'color':
        return rng.choice([[0, 0, 0x10000], [-1, 0, 0], [1, 2], [1, 2, 3, 4]])
    if kind == 'datetime':
        return rng.choice([datetime.datetime(1960, 1, 1), datetime.datetime(2110, 1, 1)])
    if kind == 'exp10':
        return rng.choice([2.0**31, -3e9, 1e20, float('nan'), float('inf')])
    return None


def field_case(ctx, rng, n):
    cls, path, kind = fields()[n % len(fields())]
    root_cls = cls if cls in (b'ABIN', b'BINF') else None
    bo = rng.choice(['little', 'big'])
    for k in range(20):
        g = libio.rand_graph(rng, 1, want=[cls], root_cls=root_cls, wild=False, maxlist=2)
        ids = [i for i in g.objs if g.objs[i].cls == cls and has(g.objs[i].f, path)]
        if ids:
            break
    else:
        raise Skip()
    i = ids[0]
    where = cls.decode('ascii') + '.' + '.'.join(path)
    good = good_value(kind, rng, path[-1])
    if good is None:
        raise Skip()
    f = libio.open_bytes(ctx.avb, fmt.build_file(g, 'little' if rng.random() < 0.7 else 'big'), ctx.mode)
    o = find(f, g, i)
    if o is None:
        raise Skip()
    tgt, mod = o, g.objs[i].f
    for k in path[:-1]:
        fit = [x for x in range(len(mod[k])) if has(mod[k][x], path[path.index(k) + 1:])]
        w = rng.choice(fit)
        tgt, mod = getattr(tgt, k)[w], mod[k][w]
        if isinstance(tgt, (dict, list)):
            raise Skip()     # plain dicts of the library with names of their own
    name = path[-1]
    if not hasattr(tgt, name):
        raise Skip()
    cur = getattr(tgt, name)
    if isinstance(cur, (bytes, bytearray)) or isinstance(mod[name], (bytes, list)) and kind not in ('rect', 'color', 'mobid'):
        raise Skip()
    bad = bad_value(kind, rng)
    p = ctx.path('f.avb')
    touch(o, cls)
    if bad is not None and rng.random() < 0.5 and not ignored(cls, path):
        setattr(tgt, name, bad)
        try:
            f.write(p, bo)
        except Exception:
            ctx.count('fields_refused')
        else:
            pf = fmt.parse_file(open(p, 'rb').read())
            got = [x.f for x in pf.graph.objs.values() if x.cls == cls]
            raise Violation('%s cannot hold %.60r, but it was written: %s' % (where, bad, [at(x, path) for x in got][:3]))
        ctx.seen('bad', where, bo)
    if name in libio.RATE_FIELDS:
        setattr(tgt, name, libio.to_lib_rate(good))
    elif name in libio.STAMP_FIELDS:
        setattr(tgt, name, datetime.datetime.fromtimestamp(good))
    elif kind == 'mobid':
        import avb.mobid
        setattr(tgt, name, avb.mobid.MobID(bytes_le=good))
    else:
        setattr(tgt, name, good)
    mod[name] = good
    if derived(cls, path):
        raise Skip()
    try:
        fmt.encode(g.objs[i], bo, dict((x, x) for x in g.objs))
    except (fmt.FormatError, KeyError, AttributeError, TypeError, ValueError):
        ctx.count('not_storable_together')      # a code or count that governs other fields
        raise Skip()
    f.write(p, bo)
    pf = fmt.parse_file(open(p, 'rb').read())
    d = fmt.compare(g, pf.graph)
    if d:
        raise Violation('%s set to %.60r is saved differently: %s' % (where, good, '; '.join(d)))
    h = ctx.avb.open(p) if ctx.mode == 'pure' else ctx.avb.open(p, use_ext=ctx.mode != 'extpure')
    with h:
        d = fmt.compare(g, libio.content(h))
    if d:
        raise Violation('%s set to %.60r and saved (%s endian) reads back differently by the %s reader: %s' % (where, good, bo, ctx.mode, '; '.join(d)))
    ctx.count('fields_saved')
    ctx.seen('good', where, bo, kind)


def ignored(cls, path):
    return derived(cls, path)


def derived(cls, path):
    """fields the library computes from others, or whose type depends on another field"""
    if cls in (b'PRCL', b'PRIT') and path[-1] == 'value':
        return True
    return (cls, path) in ((b'AVUP', ('byte_order',)), (b'ABIN', ('large_bin',)), (b'BINF', ('large_bin',)))


def has(f, path):
    if len(path) > 1:
        return any(has(x, path[1:]) for x in f.get(path[0]) or ())
    return path[0] in f


def at(f, path):
    for k in path[:-1]:
        if not f.get(k):
            return None
        f = f[k][0]
    return f.get(path[-1])


def find(f, g, i):
    """the library object for model object i, walking in parallel from the root"""
    v = {}
    todo = [(g.root, f.content)]
    while todo:
        j, o = todo.pop()
        if j in v:
            continue
        v[j] = o
        if j == i:
            return o
        m = g.objs[j]
        if m.cls == b'ATTR':
            for k, t, x in m.f['_items']:
                if t == 3 and x is not None:
                    todo.append((x.id, o[k]))
            continue
        if m.cls in (b'PRLS', b'TMCS'):
            for k, x in enumerate(m.f['_refs']):
                if x is not None:
                    todo.append((x.id, o[k]))
            continue
        walk(m.f, o, todo)
    return None


def walk(mf, o, todo):
    for k, x in mf.items():
        if isinstance(x, fmt.Ref):
            todo.append((x.id, getattr(o, k)))
        elif isinstance(x, list):
            for w, y in enumerate(x):
                if isinstance(y, fmt.Ref):
                    todo.append((y.id, getattr(o, k)[w]))
                elif isinstance(y, dict) and any(isinstance(z, (fmt.Ref, list)) for z in y.values()):
                    t = getattr(o, k)[w]
                    if not isinstance(t, (dict, list)):
                        walk(y, t, todo)


def touch(o, cls):
    """marks the object as edited (edits of helper objects are a known finding of C07)"""
    for name in libio.schema(cls):
        if hasattr(o, name):
            setattr(o, name, getattr(o, name))


WORKLOADS = {'scalar': scalar_case, 'rate': rate_case, 'date': date_case, 'text': text_case, 'field': field_case}
