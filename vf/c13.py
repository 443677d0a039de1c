# -*- coding: utf-8 -*-
"""C13: reference lists and attribute maps behave like Python lists and dicts"""
from collections import OrderedDict

from . import fmt, hostile, libio, ops, scen
from .common import Violation, collect

PROPERTY = 'C13'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring against a model: every operation is applied to the library container and to a plain Python list or dict, results, errors and effects are compared, saved files included'
LEVEL_NOTE = 'Sampling of operation sequences over all list and map operations; every result is compared.'
RULE = ('list / map: containers loaded from a file (entries unread, read, or collected in between) or newly made, with null entries, '
        'repeated entries and new objects; random sequences of all operations, failing ones included; result, error kind and content '
        'are compared with those of a list / OrderedDict, then the file is saved and decoded. Distinct: container kind x operation x '
        'outcome x state of the entries.')
ASSUMPTIONS = ['entries are compared by identity, as objects without an equality of their own are in a Python list']
PLANS = {'quick': [('pure', 'list', 1000, 2), ('ext', 'list', 700, 2), ('extpure', 'list', 150, 1), ('pure', 'map', 1000, 2), ('ext', 'map', 700, 2), ('extpure', 'map', 150, 1)],
         'thorough': [('pure', 'list', 30000, 8), ('ext', 'list', 30000, 8), ('extpure', 'list', 8000, 4), ('pure', 'map', 30000, 8), ('ext', 'map', 30000, 8),
                      ('extpure', 'map', 8000, 4)]}
REQUIRED = {'list_operations': 15000, 'map_operations': 15000, 'saved_containers': 2000, 'errors_equal': 1000, 'collections': 500}

OBJS = (b'FILL', b'SCLP', b'TMBC', b'GRFX', b'MCMR', b'SEQU', b'TKFX')


def world(ctx, rng, cls, maxlist=6):
    """an open file with a container of the kind: (file, container number, model object, pool of tokens, new objects)"""
    bed = hostile.Bed(rng, 'little' if rng.random() < 0.8 else 'big')
    ids = []
    for c in OBJS:
        for k in range(rng.randint(1, 2)):
            o = fmt.generate(c, rng, lambda f, c, r: None, maxlist=1)
            ids.append(bed.add(c, fmt.encode(o, bed.bo, {})))

    def pick(field, c, r):
        return None if r.random() < 0.15 else fmt.Ref(r.choice(ids))
    m = fmt.generate(cls, rng, pick, maxlist=maxlist)
    i = bed.add(cls, fmt.encode(m, bed.bo, dict((x, x) for x in fmt.refs_of(m))))
    top = fmt.Obj(b'ATTR', {'_items': [[u'c', 3, fmt.Ref(i)]]})
    a = bed.add(b'ATTR', fmt.encode(top, bed.bo, {i: i}))
    root = fmt.generate(b'BINF', rng, lambda f, c, r: None)
    root.f['attributes'] = fmt.Ref(a)
    if 'attributes' not in libio.schema(b'BINF'):
        raise AssertionError('harness')
    bed.chunks[0] = (b'BINF', fmt.encode(root, bed.bo, {a: a}))
    f = libio.open_bytes(ctx.avb, bed.data(), ctx.mode)
    new = {}
    for k in range(2):
        new[100000 + k] = f.create.Filler()
    pool = [None] + [ops.Tok(x) for x in ids] + [ops.Tok(x) for x in new]
    return f, i, m, pool, new, ids


def list_case(ctx, rng, n):
    cls = rng.choice([c for c in sorted(fmt.REFLISTS)])
    name = fmt.REFLISTS[cls]
    made = rng.random() < 0.2
    f, i, m, pool, new, ids = world(ctx, rng, cls, rng.choice([0, 3, 8]) if rng.random() < 0.99 else 1500)
    if made:
        o = getattr(f.create, fmt.KINDS[cls][0])()
        fresh = o
        if cls not in (b'PRLS', b'TMCS', b'SEQU'):
            f.close()
            return
        if cls == b'SEQU':
            libio.Builder(f).setall(o, dict((k, m.f[k]) for k in m.f if not libio.has_ref(m.f[k]) and k != name), libio.schema(cls), cls)
        f.content.attributes[u'c'] = o
        model = []
        i = None
    else:
        model = [None if r is None else ops.Tok(r.id) for r in m.f[name]]
    # some repeated entries
    o = None
    side = ops.Side(f, new)
    plain = ops.Plain()
    some = rng.sample(pool, min(len(pool), rng.choice([3, 6, 20])))
    if None not in some and rng.random() < 0.5:
        some.append(None)
    keepobj = {}
    for k in range(rng.randint(2, 30)):
        o = fresh if made else (keepobj.get('o') or f.content.attributes[u'c'])
        if rng.random() < 0.5:
            keepobj['o'] = o
        li = o if name == '_refs' else getattr(o, name)
        op = ops.list_op(rng, len(model), some)
        before = list(model)
        a, li = ops.apply_list(li, op, side)
        b, model = ops.apply_list(model, op, plain)
        ctx.count('list_operations')
        if b[0] == 'raises':
            ctx.count('errors_equal')
        ctx.seen(cls, op[0], a[0], bool(keepobj), made)
        if a != b:
            raise Violation('%r %s of %r: %r instead of %r' % (cls, op[0], before, a, b) + '\n%r' % (op,))
        if rng.random() < 0.25:
            li = o if name == '_refs' else getattr(o, name)
            if len(li) != len(model):
                raise Violation('%r has %d entries after %s of %r, not %d: %r' % (cls, len(li), op[0], before, len(model), op))
            got = [side.tok(x) for x in li]
            if got != model:
                raise Violation('%r is %r after %s of %r, not %r (%r)' % (cls, got, op[0], before, model, op))
        li = o = None
        if rng.random() < 0.12:
            keepobj.clear()
            collect()
            ctx.count('collections')
    li = o = None
    keepobj.clear()
    if rng.random() < 0.3:
        collect()
    o = fresh if made else f.content.attributes[u'c']
    got = [side.tok(x) for x in (o if name == '_refs' else getattr(o, name))]
    if got != model:
        raise Violation('%r is %r at the end, not %r' % (cls, got, model))
    saved(ctx, f, rng, name, model, cls, m, made)
    f.close()


def saved(ctx, f, rng, name, model, cls, m, made):
    """the file written holds the entries of the model, in order and with the same repetitions"""
    out = scen.save(ctx, f, rng.choice(['little', 'big']))
    g = fmt.parse_file(out).graph
    a = g.objs[g.root].f['attributes']
    c = [it for it in g.objs[a.id].f['_items'] if it[0] == u'c'][0][2]
    if g.objs[c.id].cls != cls:
        raise Violation('%r is written as %r' % (cls, g.objs[c.id].cls))
    refs = g.objs[c.id].f[name]
    same(model, [r.id if r else None for r in refs], '%r' % cls)
    ctx.count('saved_containers')


def same(model, ids, what):
    if len(ids) != len(model):
        raise Violation('%s with %d entries is written with %d' % (what, len(model), len(ids)))
    to, back = {}, {}
    for t, i in zip(model, ids):
        if (t is None) != (i is None):
            raise Violation('%s: entry %r is written as %r' % (what, t, i))
        if t is None:
            continue
        if to.setdefault(t.n, i) != i or back.setdefault(i, t.n) != t.n:
            raise Violation('%s: the entries %r are written as %r' % (what, model, ids))


def rval(rng, pool):
    k = rng.random()
    if k < 0.5:
        return rng.choice(pool)
    if k < 0.7:
        return rng.choice([0, 1, -5, 2 ** 31 - 1])
    if k < 0.85:
        return rng.choice([u'', u'text', u'\u00e9'])
    return ('bytearray', rng.choice([b'', b'123', b'\x00\xff']))


def map_case(ctx, rng, n):
    f, i, m, pool, new, ids = world(ctx, rng, b'ATTR', rng.choice([0, 3, 8]) if rng.random() < 0.99 else 800)
    made = rng.random() < 0.2
    plain = ops.Plain()
    side = ops.Side(f, new)
    model = OrderedDict()
    if made:
        fresh = f.create.Attributes()
        f.content.attributes[u'c'] = fresh
    else:
        for k, t, v in m.f['_items']:
            if t == 3:
                v = None if v is None else ops.Tok(v.id)
            elif t == 4:
                v = bytearray(v)
            model[k] = v
    some = rng.sample(pool, min(len(pool), rng.choice([3, 6, 20])))
    allkeys = [u'new%d' % k for k in range(3)] + list(model) + [u'']
    keep = {}
    a = None
    for k in range(rng.randint(2, 30)):
        a = fresh if made else (keep.get('o') or f.content.attributes[u'c'])
        if rng.random() < 0.5:
            keep['o'] = a
        op = ops.map_op(rng, list(model), allkeys, lambda: rval(rng, some))
        before = list(model.items())
        ra, a2 = ops.apply_map(a, op, side)
        rb, model = ops.apply_map(model, op, plain)
        if a2 is not a:
            raise Violation('%s gives another object' % op[0])
        ctx.count('map_operations')
        if rb[0] == 'raises':
            ctx.count('errors_equal')
        ctx.seen('map', op[0], ra[0], bool(keep), made)
        if ra != rb:
            raise Violation('%s of %r: %r instead of %r\n%r' % (op[0], before, ra, rb, op))
        if rng.random() < 0.25:
            got = side.tok(OrderedDict((x, a[x]) for x in a), 1)
            want = plain.tok(model)
            if got != want:
                raise Violation('the map is %r after %s of %r, not %r (%r)' % (got, op[0], before, want, op))
        a2 = a = None
        if rng.random() < 0.12:
            keep.clear()
            collect()
            ctx.count('collections')
    keep.clear()
    if rng.random() < 0.3:
        collect()
    a = fresh if made else f.content.attributes[u'c']
    got, want = side.tok(OrderedDict((x, a[x]) for x in a), 1), plain.tok(model)
    if got != want:
        raise Violation('the map is %r at the end, not %r' % (got, want))
    out = scen.save(ctx, f, rng.choice(['little', 'big']))
    g = fmt.parse_file(out).graph
    r = g.objs[g.root].f['attributes']
    c = [it for it in g.objs[r.id].f['_items'] if it[0] == u'c'][0][2]
    items = g.objs[c.id].f['_items']
    if [x[0] for x in items] != list(model):
        raise Violation('the keys %r are written as %r' % (list(model), [x[0] for x in items]))
    toks, refs = [], []
    for (key, t, v), w in zip(items, model.values()):
        if w is None or isinstance(w, ops.Tok):
            if t != 3:
                raise Violation('%r: an object is written as type %d' % (key, t))
            toks.append(w)
            refs.append(v.id if v else None)
        elif (t, v) != ((4, bytes(w)) if isinstance(w, bytearray) else (2, w) if isinstance(w, str) else (1, w)):
            raise Violation('%r: %r is written as %r of type %d' % (key, w, v, t))
    same(toks, refs, 'a map')
    ctx.count('saved_containers')
    f.close()


WORKLOADS = {'list': list_case, 'map': map_case}
