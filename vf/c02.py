# -*- coding: utf-8 -*-
"""C02: every supported kind is decoded and encoded per the format layout (oracle: fmt.py)"""
from . import fmt, libio
from .common import Violation

PROPERTY = 'C02'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: executed reads and writes of generated objects compared with a reference format model'
LEVEL_NOTE = ('Every object kind with boundary-biased values and every subset of optional sections, in both readers and byte orders; '
              'trusts the reference model (validated on every sample chunk and file). Sampling, not exhaustive.')
RULE = ('random objects of every kind (boundary-biased field values, random subsets of optional sections), encoded by the '
        'reference format model, opened by the library and compared field by field; then written back and compared byte by '
        'byte with the model encoding. Distinct: kind + byte order + set of present fields + list lengths.')
ASSUMPTIONS = ['fmt.py describes the format correctly (it decodes and re-encodes all sample chunks and files byte-identically)',
               'well-formed means canonical: booleans 0/1, reserved bytes as the library writes them']
PLANS = {'quick': [('pure', 'kind', 1600, 3), ('ext', 'kind', 1600, 3), ('pure', 'graph', 60, 1), ('ext', 'graph', 60, 1), ('pure', 'old', 8, 1), ('ext', 'old', 8, 1)],
         'thorough': [('pure', 'kind', 24000, 8), ('ext', 'kind', 24000, 8), ('pure', 'graph', 1500, 8), ('ext', 'graph', 1500, 8), ('pure', 'old', 32, 1), ('ext', 'old', 32, 1)]}
REQUIRED = {'objects_compared': 3000, 'chunks_reencoded': 3000}
KINDS = sorted(k for k in fmt.KINDS)


def shape(o):
    def s(v):
        if isinstance(v, list):
            return len(v) if not v or not isinstance(v[0], dict) else (len(v), tuple(sorted(v[0])))
        return type(v).__name__
    return (o.cls, tuple(sorted((k, s(v)) for k, v in o.f.items())))


def check_file(ctx, g, bo, rng, order=None):
    data = fmt.build_file(g, bo, order)
    with libio.open_bytes(ctx.avb, data, ctx.mode) as f:
        got = libio.content(f)
        d = fmt.compare(g, got)
        if d:
            raise Violation('%s endian, %s reader: read differs from the stored object: %s' % (bo, ctx.mode, '; '.join(d)))
        ctx.count('objects_compared', len(g.objs))
        p = ctx.path('o.avb')
        f.write(p, bo)
    with open(p, 'rb') as h:
        out = h.read()
    check_written(ctx, g, out, bo)


def check_written(ctx, g, out, bo):
    try:
        pf = fmt.parse_file(out)
    except fmt.FormatError as e:
        raise Violation('%s endian: the rewritten file does not follow the format: %s' % (bo, e))
    ctx.require(pf.bo == bo, 'written in the wrong byte order')
    d = fmt.compare(g, pf.graph)
    if d:
        raise Violation('%s endian: rewritten object differs: %s' % (bo, '; '.join(d)))
    ident = dict((i, i) for i in pf.graph.objs)
    for i, (cls, raw, at) in enumerate(pf.chunks):
        want = fmt.encode(pf.graph.objs[i + 1], bo, ident)
        ctx.count('chunks_reencoded')
        if want != raw:
            at = [j for j in range(min(len(raw), len(want))) if raw[j] != want[j]][:1] or [min(len(raw), len(want))]
            raise Violation('%s endian: bytes of the rewritten %r differ at offset %s: %r, expected %r' % (
                bo, cls, at[0], raw[max(0, at[0] - 8):at[0] + 12], want[max(0, at[0] - 8):at[0] + 12]))


def kind_case(ctx, rng, n):
    cls = KINDS[n % len(KINDS)]
    bo = 'little' if (n // len(KINDS)) % 2 == 0 else 'big'
    support = [c for c in (b'ATTR', b'CMPO', b'SCLP', b'FILL', b'APOS', b'PRLS', b'FXPS', b'TKMN', b'MDES', b'WINF',
                           b'PRIT', b'TKDA', b'GRFX', b'BVst', b'PRCL', b'CDCI') if rng.random() < 0.3]
    g = libio.rand_graph(rng, 1, want=support + [cls], root_cls=cls if cls in (b'ABIN', b'BINF') else None,
                         big=rng.random() < 0.06, wild=rng.random() < 0.8)
    for i in g.objs:
        if g.objs[i].cls == cls:
            ctx.seen(bo, shape(g.objs[i]))
    if n < 2:
        ctx.sample('%s %s: %r' % (bo, cls, g.objs[max(g.objs) - 1]))
    order = libio.shuffled_order(g, rng) if rng.random() < 0.3 else None
    check_file(ctx, g, bo, rng, order)
    ctx.count('kind_' + cls.decode('ascii'))


def graph_case(ctx, rng, n):
    bo = rng.choice(['little', 'big'])
    g = libio.rand_graph(rng, rng.randint(10, 60), big=rng.random() < 0.1, maxlist=rng.choice([1, 3, 8]))
    for i in g.objs:
        ctx.seen(bo, shape(g.objs[i]))
    check_file(ctx, g, bo, rng, libio.shuffled_order(g, rng) if rng.random() < 0.3 else None)
    ctx.count('graphs')


OLD = [b'SCLP', b'CMPO', b'MSML', b'APOS', b'ABOB', b'DIDP', b'MPGP', b'MCMR']


def old_case(ctx, rng, n):
    """objects of old files, which have no extension with the full mob id"""
    cls = OLD[n % len(OLD)]
    bo = rng.choice(['little', 'big'])
    g = libio.rand_graph(rng, 1, want=[cls])
    for i in g.objs:
        if g.objs[i].cls == cls:
            g.objs[i].f.pop('mob_id')
    data = fmt.build_file(g, bo)
    with libio.open_bytes(ctx.avb, data, ctx.mode) as f:
        d = fmt.compare(g, libio.content(f))
        if d:
            raise Violation('%r without a mob id: read differs from the stored object: %s' % (cls, '; '.join(d)))
        ctx.count('old_objects')
        ctx.seen('old', cls, bo)
        try:
            f.write(ctx.path('o.avb'), bo)
        except AttributeError as e:
            raise Violation('%r without a mob id extension can be read but not written: %s' % (cls, e), 'no-mob-id-' + cls.decode('ascii'))
    with open(ctx.path('o.avb'), 'rb') as h:
        check_written(ctx, g, h.read(), bo)


WORKLOADS = {'old': old_case, 'kind': kind_case, 'graph': graph_case}
