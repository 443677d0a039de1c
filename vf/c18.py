# -*- coding: utf-8 -*-
"""C18: animation and retime curves evaluate as their control points say"""
import math
from fractions import Fraction

from . import fmt
from .common import Violation, collect

PROPERTY = 'C18'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: evaluations of generated curves compared with an independent evaluator (exact interpolation, bisection on the monotone time polynomial), metamorphic checks of history independence'
LEVEL_NOTE = 'Sampling of curves, evaluation times and histories; bezier values may lie anywhere in the range the curve takes within the rounding of its time.'
RULE = ('value: curves of 1..12 points at rational times, constant, linear, bezier (absent, usual, vertical, backward and overlong handles) and cubic, integer '
        'and double values, new or loaded; evaluated before, between, on and after the points in random order, repeatedly and between edits. '
        'integrate: sums over speed curves against an independent sum, any range. refuse: curves without points and unknown kinds. sample: curves of '
        'the sample files. Distinct: interpolation x number of points x handle shapes x place of the time.')
ASSUMPTIONS = ['handles that leave their segment are cut back to it along their direction (beyond the far point) or moved onto their own point (behind it), '
               'as the library documents', 'the cubic tangents are those of Media Composer as documented in interpolation.py', 'point times increase']
PLANS = {'quick': [('pure', 'value', 2000, 3), ('ext', 'value', 1600, 2), ('extpure', 'value', 250, 1), ('pure', 'integrate', 120, 2), ('ext', 'integrate', 300, 1),
                   ('pure', 'sample', 60, 1), ('ext', 'sample', 60, 1), ('pure', 'refuse', 100, 1)],
         'thorough': [('pure', 'value', 60000, 8), ('ext', 'value', 60000, 8), ('extpure', 'value', 10000, 4), ('pure', 'integrate', 4000, 8), ('ext', 'integrate', 9000, 8),
                      ('pure', 'sample', 600, 4), ('ext', 'sample', 600, 4), ('pure', 'refuse', 2000, 2)]}
REQUIRED = {'long_curves': 300, 'values': 40000, 'between': 15000, 'on_points': 5000, 'outside': 8000, 'integrals': 9000, 'curve_edits': 800, 'refused': 50, 'sample_curves': 10}
CONSTANT, LINEAR, BEZIER, CUBIC = 2, 3, 5, 6
IN_POS, IN_VAL, OUT_POS, OUT_VAL, MODE, BASE = 5, 6, 7, 8, 9, 14


# -------------------------------------------------------------------- oracle
def poly(a, b, c, d, u):
    v = 1.0 - u
    return v * v * v * a + 3 * v * v * u * b + 3 * v * u * u * c + u * u * u * d


def solve(a, b, c, d, x):
    """u of the monotone time polynomial"""
    lo, hi = 0.0, 1.0
    if poly(a, b, c, d, 0.0) >= x:
        return 0.0
    if poly(a, b, c, d, 1.0) <= x:
        return 1.0
    for i in range(80):
        m = (lo + hi) / 2
        if poly(a, b, c, d, m) < x:
            lo = m
        else:
            hi = m
    return (lo + hi) / 2


def segment(p0, h0, h1, p1, x):
    """(lowest, highest) value of the bezier segment within the rounding of x"""
    x0, y0 = p0
    x3, y3 = p1
    (x1, y1), (x2, y2) = h0, h1
    if x1 > x3:
        x1, y1 = x3, y0 + (y1 - y0) * (x3 - x0) / (x1 - x0)
    elif x1 < x0:
        x1 = x0
    if x2 < x0:
        x2, y2 = x0, y3 + (y2 - y3) * (x0 - x3) / (x2 - x3)
    elif x2 > x3:
        x2 = x3
    # relative to the segment: large times do not cost precision
    L = x3 - x0
    c = (0.0, (x1 - x0) / L, (x2 - x0) / L, 1.0)
    s = (x - x0) / L
    tol = 1e-6 + 1e-15 * (abs(x0) + abs(x3)) / L
    u0 = solve(c[0], c[1], c[2], c[3], s - tol)
    u1 = solve(c[0], c[1], c[2], c[3], s + tol)
    ys = [poly(y0, y1, y2, y3, u0 + (u1 - u0) * i / 64.0) for i in range(65)]
    sp = max(abs(v) for v in (y0, y1, y2, y3))
    eps = 1e-5 * sp + 1e-12 + (max(ys) - min(ys)) * 0.02
    return min(ys) - eps, max(ys) + eps


def mc_tangent(p, q, n, into):
    """tangent of the cubic kind at q, between p and n"""
    d = 0.4 * ((q[0] - p[0]) if into else (n[0] - q[0]))
    up, down = q[1] - p[1], n[1] - q[1]
    total = n[1] - p[1]
    sign = lambda v: v >= 0
    y = 0.0
    if total and sign(up / (q[0] - p[0])) == sign(down / (n[0] - q[0])) == sign(total / (n[0] - p[0])):
        y = 2.0 * min(abs(up), abs(down)) / abs(total) * total / (n[0] - p[0]) * d
    return (-d, -y) if into else (d, y)


def expect(kind, pts, t):
    """(lowest, highest) acceptable value of the curve of points (time, value, in handle, out handle) at t"""
    if t < pts[0][0]:
        return pts[0][1], pts[0][1]
    if t >= pts[-1][0]:
        return pts[-1][1], pts[-1][1]
    i = max(k for k in range(len(pts)) if pts[k][0] <= t)
    p, q = pts[i], pts[i + 1]
    if kind == CONSTANT:
        return p[1], p[1]
    if kind == LINEAR:
        x0, x1, y0, y1 = Fraction(p[0]), Fraction(q[0]), Fraction(p[1]), Fraction(q[1])
        v = y0 + (y1 - y0) * (Fraction(t) - x0) / (x1 - x0)
        eps = 1e-12 * max(abs(p[1]), abs(q[1])) + 1e-15 * (abs(p[0]) + abs(q[0])) / (q[0] - p[0]) * abs(q[1] - p[1])
        return float(v) - eps, float(v) + eps
    if kind == BEZIER:
        return segment(p[:2], (p[0] + p[3][0], p[1] + p[3][1]), (q[0] + q[2][0], q[1] + q[2][1]), q[:2], t)
    half = (q[0] - p[0]) * 0.5
    a = pts[i - 1][:2] if i else (p[0] - half, p[1])
    b = pts[i + 2][:2] if i + 2 < len(pts) else (q[0] + half, q[1])
    o = mc_tangent(a, p[:2], q[:2], False)
    n = mc_tangent(p[:2], q[:2], b, True)
    return segment(p[:2], (p[0] + o[0], p[1] + o[1]), (q[0] + n[0], q[1] + n[1]), q[:2], t)


# ----------------------------------------------------------------- generator
def rand_times(rng, n):
    """(numerator, denominator, timescale) of n increasing times"""
    scale = rng.choice([1, 1, 1, 2, 25, 1000, -1, 100000])
    c = rng.random()
    out = []
    t = Fraction(rng.randint(-50, 50) if c < 0.7 else rng.randint(-10**5, 10**5))
    den = rng.choice([1, 1, 1, 2, 3, 7, 1000, -1, -4])
    t = int(t * den)
    step = 1 if Fraction(scale, den) > 0 else -1
    gap = rng.choice([1, 3, 30, 500, 100000 if c < 0.3 else 40])
    for i in range(n):
        out.append((t, den, scale))
        t += step * rng.choice([1, rng.randint(1, gap), gap])
    return out


def time_of(o):
    return float(o[0]) / float(o[1]) * o[2]


def rand_handles(rng, gap, span):
    """in and out handles (dx, dy), or None"""
    out = []
    for s in (-1, 1):
        c = rng.random()
        if c < 0.25:
            out.append((0.0, 0.0))
        elif c < 0.55:
            out.append((s * gap * rng.uniform(0, 0.9), rng.uniform(-span, span)))
        elif c < 0.62:
            out.append((0.0, rng.uniform(-span, span)))
        elif c < 0.7:
            out.append((s * gap, rng.uniform(-span, span)))
        elif c < 0.78:
            out.append((s * gap / 3.0, span / 3.0))
        elif c < 0.86:
            out.append((s * gap * rng.uniform(1, 30), rng.uniform(-span, span)))
        elif c < 0.94:
            out.append((-s * gap * rng.uniform(0, 3), rng.uniform(-span, span)))
        else:
            out.append((s * rng.choice([1e-9, 1e-6, 0.5, 1.0, 3.0]), rng.choice([0.0, 1e-9, span])))
    return out


class Curve(object):
    """a library curve with the model of its points"""

    def __init__(self, f, rng, kind=None, n=None):
        self.f, self.rng = f, rng
        self.kind = kind or rng.choice([CONSTANT, LINEAR, BEZIER, BEZIER, BEZIER, CUBIC, CUBIC])
        n = n or rng.choice([1, 2, 2, 3, 4, 6, 12]) if rng.random() > 0.012 else rng.choice([70, 300, 1200])
        self.vt = rng.choice([1, 2, 2])
        ts = rand_times(rng, n)
        c = self.o = f.create.ParamClip()
        c.interp_kind = self.kind
        c.value_type = self.vt
        span = rng.choice([1.0, 100.0, 1e5, 0.01])
        self.pts = []
        cps = []
        walk = rng.random() < 0.5
        v = 0.0
        base = rng.random() < 0.3
        for i in range(n):
            if walk:
                v += rng.uniform(0, span) if rng.random() < 0.8 else 0
            else:
                v = rng.uniform(-span, span)
            x = int(v) if self.vt == 1 else float(v)
            t = time_of(ts[i])
            gap = abs(time_of(ts[i + 1]) - t) if i + 1 < n else abs(t - time_of(ts[i - 1])) if i else 1.0
            h = rand_handles(rng, gap, span) if rng.random() < 0.8 else None
            cps.append(self.point(ts[i], x, h, (rng.randint(-100, 100) if base and (i == 0 or rng.random() < 0.3) else None)))
            self.pts.append([t, float(x)] + (h or [(0.0, 0.0), (0.0, 0.0)]))
        c.control_points = cps

    def point(self, o, v, handles, base):
        f, rng = self.f, self.rng
        p = f.create.ParamControlPoint()
        p.offset = [o[0], o[1]]
        p.timescale = o[2]
        p.value = v
        pp = []
        if handles:
            for code, x in ((IN_POS, handles[0][0]), (IN_VAL, handles[0][1]), (OUT_POS, handles[1][0]), (OUT_VAL, handles[1][1])):
                if x or rng.random() < 0.5:
                    pp.append((code, 2, x))
        if rng.random() < 0.3:
            pp.append((MODE, 1, rng.randint(0, 5)))
        if rng.random() < 0.2:
            pp.append((rng.choice([1, 2, 10, 99]), 1, rng.randint(-5, 5)))
        if base is not None:
            pp.append((BASE, 1, base))
        rng.shuffle(pp)
        p.pp = []
        for code, t, x in pp:
            y = f.create.ParamControlPointProperty()
            y.code, y.type, y.value = code, t, x
            p.pp.append(y)
        return p

    def base(self):
        for y in self.o.control_points[0].pp:
            if y.code == BASE:
                return y.value
        return 0


def times(rng, pts):
    out = []
    T = [p[0] for p in pts]
    out += rng.sample(T, min(len(T), 4))
    out += [T[0] - rng.choice([1e-6, 0.5, 1, 1000]), T[-1] + rng.choice([1e-6, 0.5, 1, 1000]), T[0], T[-1], -1e12, 1e12]
    for k in range(8):
        i = rng.randrange(len(T))
        j = min(i + 1, len(T) - 1)
        c = rng.random()
        if c < 0.5:
            out.append(rng.uniform(T[i], T[j]))
        elif c < 0.7:
            out.append(math.floor(rng.uniform(T[i], T[j])) + rng.choice([0, 0.5, 0.1]))
        elif c < 0.85:
            out.append(T[i] + (T[j] - T[i]) * rng.choice([1e-12, 1e-9, 1e-6, 1e-3, 0.5, 1 - 1e-6, 1 - 1e-9]))
        else:
            out.append(int(rng.uniform(T[i], T[j])))
    return out


def check(ctx, o, kind, pts, t, how):
    v = o.value_at(t)
    if type(v) is not float:
        raise Violation('%s: value_at(%r) is %r' % (how, t, v))
    lo, hi = expect(kind, pts, float(t))
    on = [p for p in pts if p[0] == t]
    if not lo <= v <= hi:
        raise Violation('%s, interpolation %d: value_at(%r) is %r, expected %r..%r; points (time, value, in, out) %r' % (how, kind, t, v, lo, hi, brief(pts, t)))
    ctx.count('values')
    if len(pts) > 64 and pts[64][0] < t < pts[-1][0]:
        ctx.count('long_curves')
    if on:
        ctx.count('on_points')
        if kind in (CONSTANT, LINEAR) and v != on[0][1]:
            raise Violation('%s: value_at(%r) is %r, the point there has %r' % (how, t, v, on[0][1]))
    elif t < pts[0][0] or t > pts[-1][0]:
        ctx.count('outside')
    else:
        ctx.count('between')
    return v


def brief(pts, t):
    i = max([k for k in range(len(pts)) if pts[k][0] <= t] or [0])
    return [tuple(p) for p in pts[max(0, i - 1):i + 3]]


def load(ctx, rng, f, o, name='c'):
    f.content = f.create.Bin()
    f.content.attributes = f.create.Attributes()
    f.content.attributes['c'] = o
    p = ctx.path('c.avb')
    f.write(p, rng.choice(['little', 'little', 'big']))
    g = ctx.avb.open(p) if ctx.mode == 'pure' else ctx.avb.open(p, use_ext=ctx.mode != 'extpure')
    return g, g.content.attributes['c']


def value_case(ctx, rng, n):
    f = ctx.avb.open()
    c = Curve(f, rng)
    o = c.o
    how = 'new curve'
    if rng.random() < 0.4:
        c.f, o = load(ctx, rng, f, o)
        c.o = o
        how = 'loaded curve'
    ts = times(rng, c.pts)
    first = [check(ctx, o, c.kind, c.pts, t, how) for t in ts]
    order = list(range(len(ts)))
    rng.shuffle(order)
    for i in order[:8]:
        v = o.value_at(ts[i])
        if v != first[i]:
            raise Violation('%s: value_at(%r) was %r and is %r after other evaluations' % (how, ts[i], first[i], v))
    for e in range(rng.choice([0, 0, 1, 3])):
        k = rng.randrange(len(c.pts))
        w = rng.choice(['value', 'kind', 'remove', 'time', 'add'])
        if w == 'value':
            x = rng.uniform(-50, 50)
            x = int(x) if c.vt == 1 else x
            o.control_points[k].value = x
            c.pts[k][1] = float(x)
        elif w == 'kind':
            c.kind = o.interp_kind = rng.choice([CONSTANT, LINEAR, BEZIER, CUBIC])
        elif w == 'remove' and len(c.pts) > 1:
            del o.control_points[k]
            del c.pts[k]
        elif w == 'time':
            # move it half way to its neighbour, exactly
            a = c.pts[k][0]
            b = c.pts[k + 1][0] if k + 1 < len(c.pts) else a + 2
            t = Fraction(a) + (Fraction(b) - Fraction(a)) / 2
            t = t.limit_denominator(1000)
            if not a < float(t) < b or abs(t.numerator) > 2**31 - 1:
                continue
            p = o.control_points[k]
            p.offset = [t.numerator, t.denominator]
            p.timescale = 1
            c.pts[k][0] = float(t.numerator) / t.denominator
        elif w == 'add':
            t = int(c.pts[-1][0]) + rng.randint(2, 9)
            o.control_points.append(c.point((t, 1, 1), 7, None, None))
            c.pts.append([float(t), 7.0, (0.0, 0.0), (0.0, 0.0)])
        ctx.count('curve_edits')
        for t in times(rng, c.pts)[:12]:
            check(ctx, o, c.kind, c.pts, t, how + ' after ' + w)
    shape = tuple(tuple((h[0] > 0) - (h[0] < 0) for h in p[2:]) for p in c.pts[:2])
    ctx.seen(how, c.kind, len(c.pts), c.vt, shape)


# ----------------------------------------------------------------- integrate
def pieces(f, a, b):
    """Media Composer's sum of the speed over the half unit ending at b: five steps, each of the trapezoid one step back"""
    h = (b - a) / 5.0
    return math.fsum((f(a + (i - 1) * h) + f(a + i * h)) * h * 0.5 for i in range(5))


def integrate_case(ctx, rng, n):
    f = ctx.avb.open()
    c = Curve(f, rng, n=rng.choice([1, 2, 3, 5]))
    # bounded time ranges
    T = [p[0] for p in c.pts]
    if T[-1] - T[0] > 60 or abs(T[0]) > 1e6:
        x = rng.randint(-60, 60)
        for p, q in zip(c.o.control_points, c.pts):
            p.offset, p.timescale = [x, 1], 1
            q[0] = float(x)
            x += rng.randint(1, 12)
        T = [p[0] for p in c.pts]
    o = c.o
    how = 'new curve'
    if rng.random() < 0.4:
        c.f, o = load(ctx, rng, f, o)
        how = 'loaded curve'
    f = o.value_at
    center = int(T[0])
    sp = max([1e-9] + [abs(p[1]) for p in c.pts] + [abs(h[1]) for p in c.pts for h in p[2:]])
    known = {}
    base = o.control_points[0].base_frame
    want_base = [y.value for y in o.control_points[0].pp if y.code == BASE][:1] or [0]
    if base != want_base[0]:
        raise Violation('base_frame is %r, the property says %r' % (base, want_base))
    for k in range(4):
        start = rng.choice([center, center - rng.randint(0, 12), center + rng.randint(0, 20), int(T[-1]) - 1])
        end = rng.choice([None, start, start + rng.randint(0, 30), int(T[-1]) + rng.randint(0, 5)])
        stop = int(T[-1]) if end is None else end
        if start > stop:
            try:
                o.integrate(start, end)
            except Exception:
                ctx.count('refused')
                continue
            raise Violation('integrate(%r, %r) is not refused' % (start, end))
        got = list(o.integrate(start) if end is None and rng.random() < 0.5 else o.integrate(start, end))
        # the sum from the first point on, forwards and backwards
        want = []
        P = {center: 0.0}
        acc = 0.0
        t = float(center)
        while t < stop:
            acc += pieces(f, t, t + 0.5)
            t += 0.5
            P[t] = acc
        acc, t = 0.0, float(center)
        while t > start:
            acc -= pieces(f, t - 0.5, t)
            t -= 0.5
            P[t] = acc
        grid = [start + i * 0.5 for i in range(2 * (stop - start) + 1)]
        if [x for x, y in got] != grid:
            raise Violation('%s: integrate(%r, %r) gives times %r.., expected %r..' % (how, start, end, [x for x, y in got][:6], grid[:6]))
        tol = 1e-9 * sp * (abs(stop - start) + abs(start - center) + 10) + 1e-9 * abs(base)
        for t, v in got:
            w = P[t] + base
            if abs(v - w) > tol:
                raise Violation('%s: integrate(%r, %r) gives %r at %r, the sum of the speed is %r (first point at %r, base frame %r)' % (how, start, end, v, t, w, T[0], base))
            if t in known and abs(known[t] - v) > tol:
                raise Violation('%s: the integral at %r depends on the range asked for: %r and %r' % (how, t, known[t], v))
            known[t] = v
            ctx.count('integrals')
    ctx.seen('integrate', how, c.kind, len(c.pts), bool(base))


def refuse_case(ctx, rng, n):
    f = ctx.avb.open()
    c = Curve(f, rng)
    o = c.o
    if n % 3 == 0:
        o.control_points = []
        calls = [lambda: o.value_at(0), lambda: o.value_at(1.5)]
    elif n % 3 == 1:
        if len(c.pts) < 2:
            c = Curve(f, rng, n=3)
            o = c.o
        o.interp_kind = rng.choice([0, 1, 4, 7, 99, -1])
        m = (c.pts[0][0] + c.pts[1][0]) / 2
        calls = [lambda: o.value_at(m)]
        for p in c.pts[:1]:
            v = o.value_at(p[0] - 1)
            if v != p[1]:
                raise Violation('value_at before the first point is %r, the point has %r' % (v, p[1]))
    else:
        p = o.control_points[0]
        if rng.random() < 0.5:
            p.offset = [1, 0]
        else:
            p.timescale = 0
        calls = [lambda: p.time]
        if len(c.pts) == 1:
            calls.append(lambda: o.value_at(0))
    for call in calls:
        try:
            v = call()
        except Exception:
            ctx.count('refused')
            continue
        raise Violation('an undefined evaluation gives %r' % (v,))
    ctx.seen('refuse', n % 3, o.interp_kind)


def sample_case(ctx, rng, n):
    from . import samples
    files = samples.files()
    p = files[n % len(files)]
    with (ctx.avb.open(p) if ctx.mode == 'pure' else ctx.avb.open(p, use_ext=ctx.mode != 'extpure')) as f:
        todo = [x for x in f.iter_class_ids([b'PRCL'])]
        rng.shuffle(todo)
        for o in todo[:20]:
            if o.interp_kind not in (CONSTANT, LINEAR, BEZIER, CUBIC) or o.value_type not in (1, 2) or not len(o.control_points):
                continue
            pts = []
            for q in o.control_points:
                d = dict((y.code, float(y.value)) for y in q.pp)
                pts.append([float(q.offset[0]) / q.offset[1] * q.timescale, float(q.value), (d.get(IN_POS, 0.0), d.get(IN_VAL, 0.0)), (d.get(OUT_POS, 0.0), d.get(OUT_VAL, 0.0))])
            if any(a[0] >= b[0] for a, b in zip(pts, pts[1:])):
                ctx.count('sample_points_not_increasing')
                continue
            for t in times(rng, pts):
                check(ctx, o, o.interp_kind, pts, t, 'sample ' + p)
            ctx.count('sample_curves')
            ctx.seen('sample', p, o.instance_id)


WORKLOADS = {'value': value_case, 'integrate': integrate_case, 'refuse': refuse_case, 'sample': sample_case}
