# -*- coding: utf-8 -*-
"""C03: the byte order of a file never changes its meaning"""
from . import fmt, libio, samples, scen
from .common import Violation

PROPERTY = 'C03'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: the same content is opened and saved in both byte orders and every execution is compared with the others'
LEVEL_NOTE = 'Sampling of contents over every kind plus all sample files; comparison of every field and of the saved bytes.'
RULE = ('twin: the same random graph encoded little and big endian by the reference model, opened, compared field by field with value '
        'types, saved in both orders and back over up to three hops: bytes must equal the direct save, values the original. '
        'scene: the same for built, edited and copied contents. sample: the same for the sample files. '
        'Distinct: kinds of objects in the file, hop sequence.')
ASSUMPTIONS = ['fmt.py encodes both byte orders correctly (checked by C02 against the samples)']
PLANS = {'quick': [('pure', 'twin', 300, 3), ('ext', 'twin', 300, 3), ('pure', 'kind', 300, 2), ('ext', 'kind', 300, 2),
                   ('pure', 'scene', 100, 1), ('ext', 'scene', 100, 1), ('pure', 'sample', 14, 7)],
         'thorough': [('pure', 'twin', 6000, 8), ('ext', 'twin', 6000, 8), ('pure', 'kind', 6000, 4), ('ext', 'kind', 6000, 4),
                      ('pure', 'scene', 3000, 8), ('ext', 'scene', 3000, 8), ('pure', 'sample', 14, 14), ('ext', 'sample', 14, 14)]}
REQUIRED = {'twins_compared': 500, 'hops': 2000, 'sample_files': 8}
ORDERS = ('little', 'big')


def typed(v):
    """a snapshot value with the types of its numbers and strings"""
    if isinstance(v, fmt.Ref):
        return ('ref', v.id)
    if isinstance(v, dict):
        return dict((k, typed(v[k])) for k in v)
    if isinstance(v, (list, tuple)):
        return [typed(x) for x in v]
    if isinstance(v, float):
        return ('float', repr(v))
    return (type(v).__name__, v)


def same_typed(ga, gb, what):
    """snapshots numbered by the same walk"""
    if sorted(ga.objs) != sorted(gb.objs):
        raise Violation('%s: %d objects, %d in the other' % (what, len(ga.objs), len(gb.objs)))
    for i in ga.objs:
        a, b = ga.objs[i], gb.objs[i]
        if a.cls != b.cls:
            raise Violation('%s: object %d is %r in one, %r in the other' % (what, i, a.cls, b.cls))
        ta, tb = typed(a.f), typed(b.f)
        if ta != tb:
            for k in sorted(set(ta) | set(tb)):
                if ta.get(k) != tb.get(k):
                    raise Violation('%s: %r.%s is %r in one, %r in the other' % (
                        what, a.cls, k, str(ta.get(k, 'absent'))[:200], str(tb.get(k, 'absent'))[:200]))
            raise Violation('%s: %r differs in field order' % (what, a.cls))


def reopen(ctx, data):
    return libio.open_bytes(ctx.avb, data, ctx.mode)


def hops(ctx, f, rng, want, what):
    """f saved directly in both orders; then over several hops"""
    direct = dict((bo, scen.save(ctx, f, bo)) for bo in ORDERS)
    contents = {}
    for bo in ORDERS:
        if fmt.parse_file(direct[bo], False).bo != bo:
            raise Violation('%s: written %s endian, the file is not' % (what, bo))
        with reopen(ctx, direct[bo]) as h:
            contents[bo] = libio.content(h)
            if h.last_save.replace(microsecond=0) != f.last_save.replace(microsecond=0):
                raise Violation('%s: last_save differs in %s endian' % (what, bo))
            if h.creator_version.rstrip() != f.creator_version.rstrip():
                raise Violation('%s: creator_version differs in %s endian: %r, was %r' % (what, bo, h.creator_version, f.creator_version))
    same_typed(contents['little'], contents['big'], what + ' little against big')
    if want is not None:
        d = fmt.compare(want, contents['big'])
        if d:
            raise Violation('%s: saved big endian differs: %s' % (what, '; '.join(d)))
    cur = direct[rng.choice(ORDERS)]
    trail = []
    for k in range(rng.randint(1, 3)):
        bo = rng.choice(ORDERS)
        trail.append(bo)
        with reopen(ctx, cur) as h:
            if rng.random() < 0.5:
                libio.content(h)
            cur = scen.save(ctx, h, bo, 'hop.avb')
        ctx.count('hops')
        if cur != direct[bo]:
            at = [j for j in range(min(len(cur), len(direct[bo]))) if cur[j] != direct[bo][j]][:1]
            raise Violation('%s: saved over %s ends in other bytes than saved directly (offset %s)' % (what, '-'.join(trail), at))
    return trail


def twin(ctx, rng, g, what):
    order = libio.shuffled_order(g, rng) if rng.random() < 0.3 else None
    fs = [reopen(ctx, fmt.build_file(g, bo, order)) for bo in ORDERS]
    snaps = [libio.content(f) for f in fs]
    for k in (0, 1):
        d = fmt.compare(g, snaps[k])
        if d:
            raise Violation('%s: stored %s endian opens with other content: %s' % (what, ORDERS[k], '; '.join(d)))
    same_typed(snaps[0], snaps[1], what)
    if fs[0].last_save != fs[1].last_save or fs[0].creator_version != fs[1].creator_version:
        raise Violation('%s: header differs' % what)
    outs = [[scen.save(ctx, f, bo) for bo in ORDERS] for f in fs]
    for k in (0, 1):
        if outs[0][k] != outs[1][k]:
            raise Violation('%s: saved %s endian the file opened big endian differs from the one opened little endian' % (what, ORDERS[k]))
    ctx.count('twins_compared')
    ctx.seen(tuple(libio.kinds_in(g)), tuple(hops(ctx, rng.choice(fs), rng, g, what)))


def twin_case(ctx, rng, n):
    g = libio.rand_graph(rng, rng.randint(2, 25), big=rng.random() < 0.06)
    twin(ctx, rng, g, 'graph')


def kind_case(ctx, rng, n):
    kinds = sorted(fmt.KINDS)
    cls = kinds[n % len(kinds)]
    g = libio.rand_graph(rng, 1, want=[cls], root_cls=cls if cls in (b'ABIN', b'BINF') else None, wild=rng.random() < 0.8)
    twin(ctx, rng, g, cls.decode())


def scene_case(ctx, rng, n):
    s = scen.any_scene(ctx, rng)
    # the order of the objects in a file depends on how the content came to be: normalise first
    bo = rng.choice(ORDERS)
    with reopen(ctx, scen.save(ctx, s.f, bo)) as f:
        f.last_save = s.f.last_save
        ctx.seen(s.how, tuple(hops(ctx, f, rng, s.g, s.how + ' (%s)' % bo)))
    ctx.count('scenes')


def sample_case(ctx, rng, n):
    fs = samples.files()
    if n >= len(fs):
        return
    data = samples.data(fs[n])
    with reopen(ctx, data) as f:
        want = libio.content(f)
        hops(ctx, f, rng, want, fs[n].split('/')[-1])
    ctx.count('sample_files')


WORKLOADS = {'twin': twin_case, 'kind': kind_case, 'scene': scene_case, 'sample': sample_case}
