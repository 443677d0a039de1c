# -*- coding: utf-8 -*-
"""C10: a copy is complete and shares nothing with its original"""
from . import c03, deep, edit, fmt, libio, samples, scen
from .common import Violation, Skip, collect

PROPERTY = 'C10'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: copies taken in random situations are compared with the original, their mutable parts intersected, and either side disturbed in place while the other is watched'
LEVEL_NOTE = 'Sampling of objects, situations and disturbances; identity of every reachable mutable part of original and copy is compared.'
RULE = ('copy: an object of a built, loaded or edited content is copied within its file or into another loaded or new one (source '
        'closed or not); the unfolded copy equals the unfolded original, no mutable part has the identity of one of the original, '
        'every object of the copy belongs to the destination and has a number of its own there, it can be attached and saved. '
        'many: the same for containers of up to 3000 entries. isolate: parts of one side changed in place in random ways; the other side must stay the same. helper: the same for '
        'helper items and lists. Distinct: kind, situation, kind of disturbance.')
ASSUMPTIONS = ['sharing inside the original need not be kept inside a copy (compared unfolded)']
PLANS = {'quick': [('pure', 'copy', 600, 2), ('ext', 'copy', 600, 2), ('pure', 'isolate', 500, 2), ('ext', 'isolate', 300, 1),
                   ('pure', 'helper', 300, 1), ('ext', 'helper', 200, 1), ('pure', 'sample', 13, 3),
                   ('pure', 'many', 14, 1), ('ext', 'many', 14, 1)],
         'thorough': [('pure', 'copy', 12000, 8), ('ext', 'copy', 12000, 8), ('pure', 'isolate', 12000, 8), ('ext', 'isolate', 8000, 8),
                      ('pure', 'helper', 6000, 4), ('ext', 'helper', 6000, 4), ('pure', 'sample', 13, 13), ('ext', 'sample', 13, 13),
                      ('pure', 'many', 400, 4), ('ext', 'many', 400, 4)]}
REQUIRED = {'long_copies': 24, 'copies': 1000, 'parts_compared': 10000, 'disturbances': 2000, 'copies_saved': 300}


def situation(ctx, rng, cls=None):
    """(file, graph, editor, destination, name)"""
    kw = {}
    if cls:
        kw = dict(want=[b'ATTR', b'SCLP', b'FILL', b'PRIT', b'GRFX', cls])
        if cls in (b'ABIN', b'BINF'):
            kw['root_cls'] = cls
    r = rng.random()
    s = (scen.built if r < 0.25 else scen.edited if r < 0.5 else scen.loaded)(ctx, rng, **kw)
    e = edit.Editor(ctx, s.f, s.g, rng)
    r = rng.random()
    if r < 0.35:
        dst, where = s.f, 'same'
    elif r < 0.65:
        dst, where = ctx.avb.open(), 'new'
    else:
        g2 = libio.rand_graph(rng, rng.randint(1, 8), want=[b'ATTR'])
        dst, where = libio.open_bytes(ctx.avb, fmt.build_file(g2, rng.choice(['little', 'big'])), ctx.mode), 'loaded'
    return s, e, dst, where


def pick(e, rng, cls):
    ids = [i for i in fmt.order_of(e.g) if cls is None or e.g.objs[i].cls == cls]
    return rng.choice(ids or fmt.order_of(e.g))


def equal(want, c, what):
    """want: tree model, c: library object"""
    got = edit.unfold(libio.snap(c))
    if got is None:
        raise Violation('%s: the copy is much larger than the original' % what)
    d = fmt.compare(want, got)
    if d:
        raise Violation('%s: the copy differs from the original: %s' % (what, '; '.join(d)))


def disjoint(ctx, o, c, dst, what):
    a, b = deep.reachable(o), deep.reachable(c)
    both = [b[i] for i in b if i in a]
    if both:
        x = both[0]
        raise Violation('%s: copy and original share %d mutable parts, such as a %s' % (what, len(both), type(x).__name__))
    numbers = set()
    for x in b.values():
        if hasattr(x, 'root') and x.root is not dst:
            raise Violation('%s: a %s of the copy does not belong to the destination' % (what, type(x).__name__))
        if getattr(x, 'class_id', None):
            n = x.instance_id
            if n in numbers:
                raise Violation('%s: two objects of the copy have the number %r' % (what, n))
            numbers.add(n)
    for x in deep.objects(dst.content) + ([y for y in a.values() if getattr(y, 'class_id', None)] if o is not None and o.root is dst else []):
        if id(x) not in b and x.instance_id in numbers:
            raise Violation('%s: an object of the copy has the number of a %s of the destination' % (what, type(x).__name__))
    ctx.count('parts_compared', len(b))


def copy_case(ctx, rng, n):
    kinds = sorted(fmt.KINDS)
    cls = kinds[n % len(kinds)] if rng.random() < 0.8 else None
    s, e, dst, where = situation(ctx, rng, cls)
    i = pick(e, rng, cls)
    want = edit.unfold(s.g, i)
    if want is None:
        raise Skip()
    if rng.random() < 0.3:
        libio.content(s.f)
    src_before = scen.save(ctx, s.f, 'little') if rng.random() < 0.2 else None
    dst_before = libio.content(dst)
    o = e.get(i)
    if rng.random() < 0.5:
        # nothing of it read yet, or all of it
        libio.snap(o)
    c = o.copy(dst)
    kcls = s.g.objs[i].cls
    what = '%r (%s) copied into %s file' % (kcls, s.how, where)
    ctx.seen(kcls, where, s.how)
    ctx.count('copies')
    if type(c) is not type(o):
        raise Violation('%s: the copy is a %s' % (what, type(c).__name__))
    close = where != 'same' and s.f.f is not None and rng.random() < 0.3
    if close:
        # a complete copy needs nothing of the source any more
        s.f.close()
    else:
        disjoint(ctx, o, c, dst, what)
    equal(want, c, what)
    if not close:
        d = fmt.compare(s.g, libio.content(s.f))
        if d:
            raise Violation('%s: copying changed the original: %s' % (what, '; '.join(d)))
        if src_before is not None and scen.save(ctx, s.f, 'little') != src_before:
            raise Violation('%s: copying changed what the source file is saved as' % what)
    if where != 'same':
        c03.same_typed(dst_before, libio.content(dst), what + ': the destination before and after')
    if rng.random() < 0.5 and dst.content.attributes is not None and kcls not in (b'ABIN', b'BINF'):
        dst.content.attributes[u'the copy'] = c
        collect()
        bo = rng.choice(['little', 'big'])
        pf = fmt.parse_file(scen.save(ctx, dst, bo))
        a = pf.graph.objs[pf.graph.objs[pf.graph.root].f['attributes'].id]
        r = [v for k, t, v in a.f['_items'] if k == u'the copy'][0]
        got = edit.unfold(pf.graph, r.id)
        d = fmt.compare(want, got)
        if d:
            raise Violation('%s: saved, the copy differs from the original: %s' % (what, '; '.join(d)))
        ctx.count('copies_saved')
    elif kcls in (b'ABIN', b'BINF') and where == 'new':
        dst.content = c
        d = fmt.compare(want, edit.unfold(fmt.parse_file(scen.save(ctx, dst, 'little')).graph))
        if d:
            raise Violation('%s: saved as the content, the copy differs: %s' % (what, '; '.join(d)))
        ctx.count('copies_saved')


def isolate_case(ctx, rng, n):
    kinds = sorted(fmt.KINDS)
    cls = kinds[n % len(kinds)] if rng.random() < 0.8 else None
    s, e, dst, where = situation(ctx, rng, cls)
    i = pick(e, rng, cls)
    if edit.unfold(s.g, i) is None:
        raise Skip()
    o = e.get(i)
    c = o.copy(dst)
    watch_isolation(ctx, rng, o, c, '%r (%s) copied into %s file' % (s.g.objs[i].cls, s.how, where), s.g.objs[i].cls)


def watch_isolation(ctx, rng, o, c, what, cls):
    a, b = (o, c) if rng.random() < 0.5 else (c, o)
    side = 'original' if a is o else 'copy'
    keep = deep.reachable(b)
    before = fullsnap(b)
    parts = list(deep.reachable(a).values())
    done = []
    rng.shuffle(parts)
    for p in parts[:rng.choice([1, 3, 10, 60])]:
        r = deep.disturb(p, rng)
        if r:
            done.append(r)
            ctx.seen(cls, side, r)
            ctx.count('disturbances')
    after = fullsnap(b)
    if before != after:
        for x, y in zip(before, after):
            if x != y:
                raise Violation('%s: changes of the %s (%s) show on the other side: %s became %s' % (
                    what, side, ', '.join(done[-6:]), str(x)[:300], str(y)[:300]))
        raise Violation('%s: changes of the %s (%s) show on the other side' % (what, side, ', '.join(done[-6:])))


def fullsnap(o):
    """every value of everything reachable, in a fixed order; nothing is interpreted"""
    out = []
    seen = {}
    todo = [o]
    while todo:
        x = todo.pop(0)
        if id(x) in seen:
            out.append(('again', seen[id(x)]))
            continue
        if deep.mutable(x) and not isinstance(x, bytearray) and not deep.is_mob_id(x):
            seen[id(x)] = len(seen)
            vs = deep.values(x)
            out.append((type(x).__name__, [k for k, v in vs]))
            todo += [v for k, v in vs]
        elif isinstance(x, bytearray):
            out.append(bytes(x))
        elif deep.is_mob_id(x):
            out.append(bytes(x.bytes_le))
        else:
            out.append(repr(x))
    return out


def helper_case(ctx, rng, n):
    owners = [b'ABIN', b'CMPO', b'FXPS', b'PRCL', b'CTRL', b'ASPI', b'EQMB', b'SLCT', b'TKFX']
    cls = owners[n % len(owners)]
    s, e, dst, where = situation(ctx, rng, cls)
    o = e.get(pick(e, rng, cls))
    cands = []
    for k, v in deep.values(o):
        if isinstance(v, list) and type(v).__name__ == 'AVBRefList':
            cands.append(v)
        if isinstance(v, list):
            for x in v:
                if hasattr(x, 'propertydefs') and not getattr(x, 'class_id', None):
                    cands.append(x)
                    for k2, v2 in deep.values(x):
                        if isinstance(v2, list):
                            cands += [y for y in v2 if hasattr(y, 'propertydefs') and not getattr(y, 'class_id', None)]
    if not cands:
        ctx.count('no_helper')
        return
    h = rng.choice(cands)
    if len(deep.reachable(h)) > 2000:
        raise Skip()
    c = h.copy(dst)
    what = '%s of %r copied into %s file' % (type(h).__name__, cls, where)
    if type(c) is not type(h):
        raise Violation('%s: the copy is a %s' % (what, type(c).__name__))
    ctx.seen('helper', type(h).__name__, where, s.how)
    ctx.count('copies')
    a, b = tree(h), tree(c)
    if a != b:
        raise Violation('%s differs: %s is %s' % (what, str(a)[:300], str(b)[:300]))
    disjoint(ctx, h, c, dst, what)
    watch_isolation(ctx, rng, h, c, what, cls)


def tree(x, depth=0):
    """values of everything below x, sharing not regarded"""
    if depth > 60:
        return '...'
    if isinstance(x, bytearray):
        return ('bytes', bytes(x))
    if deep.is_mob_id(x):
        return ('mobid', bytes(x.bytes_le))
    if deep.mutable(x):
        return (type(x).__name__, [(k, tree(v, depth + 1)) for k, v in deep.values(x)])
    return repr(x)


def sample_case(ctx, rng, n):
    """whole mobs and the whole bin of the retime samples"""
    fs = samples.small()
    data = samples.data(fs[n % len(fs)])
    g = fmt.parse_file(data).graph
    with libio.open_bytes(ctx.avb, data, ctx.mode) as f:
        dst = ctx.avb.open()
        want = edit.unfold(g, limit=20000)
        c = f.content.copy(dst)
        disjoint(ctx, f.content, c, dst, 'sample')
    equal_to = edit.unfold(libio.snap(c), limit=20000)
    d = fmt.compare(want, equal_to)
    if d:
        raise Violation('the copy of a sample bin differs: %s' % '; '.join(d))
    ctx.count('copies')
    dst.content = c
    d = fmt.compare(want, edit.unfold(fmt.parse_file(scen.save(ctx, dst, 'little')).graph, limit=20000))
    if d:
        raise Violation('the saved copy of a sample bin differs: %s' % '; '.join(d))
    ctx.count('copies_saved')


def many_case(ctx, rng, n):
    """containers of thousands of entries"""
    f = ctx.avb.open()
    total = rng.choice([300, 1100, 3000])
    kind = rng.choice(['sequence', 'list', 'map'])
    if kind == 'sequence':
        o = f.create.Sequence(media_kind='picture')
    elif kind == 'list':
        o = f.create.ParameterList()
    else:
        o = f.create.Attributes()
    for k in range(total):
        c = f.create.Filler(media_kind='picture')
        c.length = k
        if kind == 'map':
            o[u'%d' % k] = c
        else:
            (o.components if kind == 'sequence' else o).append(c)
    f.content.attributes[u'o'] = o
    o = c = None
    if rng.random() < 0.6:
        f = libio.open_bytes(ctx.avb, scen.save(ctx, f, rng.choice(['little', 'big'])), ctx.mode)
    dst = f if rng.random() < 0.4 else ctx.avb.open()
    o = f.content.attributes[u'o']
    entries = lambda x: [x[u'%d' % k] for k in range(total)] if kind == 'map' else list(x.components if kind == 'sequence' else x)
    if rng.random() < 0.5:
        before = entries(o)
    c = o.copy(dst)
    what = 'a %s of %d entries' % (kind, total)

    def same(x, add, who):
        got = [y.length for y in entries(x)]
        if got != [k + add for k in range(total)]:
            raise Violation('%s: %s has %d entries: %r...' % (what, who, len(got), [g for g in got if g not in range(add, total + add)][:5]))
    same(c, 0, 'the copy')
    mine, theirs = entries(o), entries(c)
    if set(map(id, mine)) & set(map(id, theirs)):
        raise Violation('%s: entries are shared with the copy' % what)
    if len(set(map(id, theirs))) != total or len(set(x.instance_id for x in theirs)) != total:
        raise Violation('%s: entries of the copy are not all different' % what)
    if [1 for x in theirs if x.root is not dst]:
        raise Violation('%s: entries of the copy do not belong to the destination' % what)
    for x in theirs:
        x.length += 1
    mine = theirs = x = None
    same(o, 0, 'the original, after the copy was edited,')
    dst.content.attributes[u'copy'] = c
    out = scen.save(ctx, dst, rng.choice(['little', 'big']))
    with libio.open_bytes(ctx.avb, out, ctx.mode) as h:
        same(h.content.attributes[u'copy'], 1, 'the saved copy')
    ctx.count('long_copies')
    ctx.seen('many', kind, total, dst is f)


WORKLOADS = {'many': many_case, 'copy': copy_case, 'isolate': isolate_case, 'helper': helper_case, 'sample': sample_case}
