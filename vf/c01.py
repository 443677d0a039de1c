# -*- coding: utf-8 -*-
"""C01: a written file reopens to exactly the content that was in memory"""
import random
import sys
import uuid

from . import common, edit, fmt, libio, scen
from .common import Skip, Violation

PROPERTY = 'C01'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: graphs built, loaded, edited and copied through the API, written, reopened and compared with a model kept in parallel'
LEVEL_NOTE = 'Sampling of graphs, histories and hostile field values; complete comparison of every sampled file.'
RULE = ('scene: file content built from scratch, loaded, edited by up to 25 random API edits or copied from another file, with a '
        'model kept in parallel; written in both byte orders, reopened and compared object by object. refuse: one hostile value '
        '(out of range, wrong type, unencodable, too long) in one field of one object; partial: optional fields set one by one; locks: lock numbers on some of the tracks; counts: lists of up to 65536 entries; deep: chains of up to 3000 objects and ladders of shared objects; '
        'the write must raise or the reopened content must equal the content in memory. '
        'Distinct: scenario + kinds of objects, kind + field + outcome.')
ASSUMPTIONS = ['dates have a resolution of one second, rates of six decimals',
               'large_bin and AVUP.byte_order are derived from the content and the file',
               'the truth value of what is put in a boolean field is what is stored']
REQUIRED = {'files_compared': 200, 'deep': 20, 'writes_refused': 300, 'writes_kept': 300, 'scene_edit_steps': 300, 'long_lists': 120, 'lock_numbers': 300}
PLANS = {'quick': [('pure', 'scene', 240, 2), ('ext', 'scene', 240, 2), ('extpure', 'scene', 60, 1),
                   ('pure', 'refuse', 2000, 4), ('ext', 'refuse', 400, 2), ('pure', 'partial', 1500, 1), ('pure', 'locks', 150, 1), ('ext', 'locks', 100, 1), ('pure', 'deep', 24, 1), ('ext', 'deep', 24, 1), ('pure', 'counts', 111, 4), ('ext', 'counts', 37, 2)],
         'thorough': [('pure', 'scene', 6000, 8), ('ext', 'scene', 6000, 8), ('extpure', 'scene', 1000, 4),
                      ('pure', 'refuse', 24000, 8), ('ext', 'refuse', 4000, 8), ('pure', 'partial', 10000, 4), ('pure', 'locks', 4000, 2), ('ext', 'locks', 4000, 2),
                      ('pure', 'deep', 400, 4), ('ext', 'deep', 400, 4),
                      ('pure', 'counts', 648, 8), ('ext', 'counts', 648, 8)]}


def compare(ctx, s, bo):
    want = s.g
    d = fmt.compare(want, libio.content(s.f))
    if d:
        raise Violation('%s: content in memory differs from what was put in: %s' % (s.how, '; '.join(d)))
    out = scen.save(ctx, s.f, bo)
    with libio.open_bytes(ctx.avb, out, ctx.mode) as f:
        d = fmt.compare(want, libio.content(f))
    if d:
        raise Violation('%s, written %s endian: reopened content differs: %s' % (s.how, bo, '; '.join(d)))
    ctx.count('files_compared')
    ctx.count('objects_compared', len(fmt.order_of(want)))


def scene_case(ctx, rng, n):
    s = scen.any_scene(ctx, rng, big=rng.random() < 0.08)
    ctx.seen(s.how, tuple(libio.kinds_in(s.g)))
    compare(ctx, s, 'little')
    compare(ctx, s, 'big')



def deep_case(ctx, rng, n):
    """long chains and ladders of shared objects"""
    g = fmt.Graph()
    kind = rng.choice(['chain', 'ladder', 'wide', 'chain', 'ladder'])
    size = rng.choice([40, 300, 1200, 3000] if kind == 'chain' else [30, 60, 400])
    g.objs[1] = fmt.generate(b'FILL', rng, lambda f, c, r: None)
    for k in range(2, size + 1):
        back = [fmt.Ref(k - 1)]
        if kind == 'ladder':
            back += [fmt.Ref(max(1, k - rng.choice([1, 1, 2, 3]))) for x in range(rng.choice([1, 1, 2]))]
            rng.shuffle(back)
        elif kind == 'wide':
            back = [fmt.Ref(rng.randint(1, k - 1)) for x in range(rng.randint(0, 30))]
            back.append(fmt.Ref(k - 1)) if rng.random() < 0.2 else None
        w = rng.choice(['ATTR', 'ATTR', 'PRLS', 'SEQU'])
        if w == 'ATTR':
            g.objs[k] = fmt.Obj(b'ATTR', {'_items': [[u'k%d' % x, 3, r] for x, r in enumerate(back)]})
        elif w == 'PRLS':
            g.objs[k] = fmt.Obj(b'PRLS', {'_refs': back})
        else:
            g.objs[k] = fmt.generate(b'SEQU', rng, lambda f, c, r: None, maxlist=0)
            g.objs[k].f['components'] = back
    root = fmt.generate(b'ABIN', rng, lambda f, c, r: None, maxlist=1)
    g.objs[size + 1] = root
    g.root = size + 1
    g.objs[size + 2] = fmt.Obj(b'ATTR', {'_items': [[u'top', 3, fmt.Ref(size)]]})
    root.f['attributes'] = fmt.Ref(size + 2)
    if rng.random() < 0.5:
        f = ctx.avb.open()
        f.content = libio.Builder(f).graph(g)
        s = scen.Scene(f, g, 'built ' + kind)
    else:
        s = scen.Scene(libio.open_bytes(ctx.avb, fmt.build_file(g, rng.choice(['little', 'big'])), ctx.mode), g, 'loaded ' + kind)
    ctx.seen('deep', s.how, size)
    compare(ctx, s, rng.choice(['little', 'big']))
    ctx.count('deep')


# ------------------------------------------------------------------ hostile values
INTS = [2**7, -2**7 - 1, 2**8, 2**8 - 1, -1, 2**15, -2**15 - 1, 2**16, 2**16 - 1, 2**31, 2**31 - 1, -2**31 - 1, 2**32, 2**32 - 1,
        2**63, 2**63 - 1, -2**63 - 1, 2**64, 2**64 - 1, 2**100, 0]


def leaves(v, path=()):
    """paths of all scalar fields of a model value"""
    if isinstance(v, dict):
        for k in v:
            for x in leaves(v[k], path + (('attr', k),)):
                yield x
    elif isinstance(v, list):
        yield path, v
        for i, y in enumerate(v):
            for x in leaves(y, path + (('idx', i),)):
                yield x
    else:
        yield path, v


def hostile(ctx, rng, field, v):
    """(description, value) for a field now holding v; None when there is nothing to try"""
    if field in libio.RATE_FIELDS:
        x = rng.choice([1e300, -1e300, float('nan'), float('inf'), -float('inf'), 2.0**40, -2.0**40, 0.0, 1e-6, -25.0, None])
        return 'rate %r' % (x,), x
    if field in libio.STAMP_FIELDS:
        import datetime
        x = rng.choice([datetime.datetime(1969, 1, 1), datetime.datetime(1900, 5, 1), datetime.datetime(2107, 1, 1),
                        datetime.datetime(9000, 1, 1), datetime.datetime(2100, 6, 1), None])
        return 'date %s' % (x,), x
    if field == 'mob_id' or isinstance(v, uuid.UUID):
        x = rng.choice([None, b'', u'', 5])
        return 'id %r' % (x,), x
    if isinstance(v, bool):
        return None         # any value has a truth value
    if isinstance(v, int):
        x = rng.choice(INTS + [1.5, None, u'1', b'\0\0\0\0'])
        return 'int %r' % (x,), x
    if isinstance(v, float):
        x = rng.choice([None, u'1', float('inf'), -0.0, 5e-324, 10**400])
        return 'double', x
    if isinstance(v, (str, type(None))) and not isinstance(v, fmt.Ref):
        n = rng.choice([1, 20, 65533, 65534, 65535, 65536, 70000])
        kind = rng.choice(['mac', 'mac2', 'cjk', 'emoji', 'surrogate', 'bytes', 'int'])
        if kind in ('mac', 'mac2'):
            x = (u'x' if kind == 'mac' else u'\u00e9') * n
        elif kind in ('cjk', 'emoji', 'surrogate'):
            x = {'cjk': u'\u6f22', 'emoji': u'\U0001f600', 'surrogate': u'\ud800'}[kind] * min(n, rng.choice([1, 17, 25000]))
        else:
            x = {'bytes': b'abc', 'int': 7}[kind]
        if v is None and kind in ('bytes', 'int'):
            return None
        return 'string of %s %s' % (n, kind), x
    if isinstance(v, bytes):
        x = rng.choice([None, u'abc', bytearray(b'x' * (len(v) + 1)), bytearray(v[:-1]), bytearray(70000)])
        return 'data of %s' % (len(x) if x is not None else None), x
    if isinstance(v, list):
        n = rng.choice([127, 128, 255, 256, 257, 32767, 32768, 65535, 65536])
        if v:
            return 'list of %d' % n, ('repeat', n)
        return None
    if isinstance(v, fmt.Ref):
        x = rng.choice([u'name', 5, b'data'])
        return 'reference %r' % (x,), x
    return None


def refuse_case(ctx, rng, n):
    kinds = sorted(fmt.KINDS)
    cls = kinds[n % len(kinds)]
    g = libio.rand_graph(rng, 1, want=[b'ATTR', cls], root_cls=cls if cls in (b'ABIN', b'BINF') else None, wild=False)
    if rng.random() < 0.5:
        f = ctx.avb.open()
        f.content = libio.Builder(f).graph(g)
    else:
        f = libio.open_bytes(ctx.avb, fmt.build_file(g, 'little'), ctx.mode)
    e = edit.Editor(ctx, f, g, rng)
    i = rng.choice([j for j in fmt.order_of(g) if g.objs[j].cls == cls])
    o = e.get(i)
    desc = mutate(ctx, rng, o, g.objs[i])
    if desc is None:
        ctx.count('nothing_to_try')
        return
    judge(ctx, f, cls, desc)


def judge(ctx, f, cls, desc):
    """written as it is in memory, or refused"""
    try:
        want = libio.content(f)
    except Violation:
        want = None         # not even a graph of objects
    if want is not None:
        for j in want.objs:     # bins of more than 65535 items are large ones
            if len(want.objs[j].f.get('items', ())) > 0xffff and want.objs[j].cls in (b'ABIN', b'BINF'):
                want.objs[j].f['large_bin'] = True
    for bo in ('little', 'big'):
        try:
            out = scen.save(ctx, f, bo)
        except fmt.FormatError:
            raise
        except Exception as ex:
            if not common.in_library(sys.exc_info()[2]):
                raise
            ctx.count('writes_refused')
            ctx.seen(cls, 'refused', type(ex).__name__)
            continue
        if want is None:
            raise Violation('%r with %s was written' % (cls, desc))
        try:
            with libio.open_bytes(ctx.avb, out, ctx.mode) as h:
                d = fmt.compare(want, libio.content(h))
        except Violation:
            raise
        except Exception as ex:
            raise Violation('%r with %s was written (%s endian) but reading it raises %s: %s' % (
                cls, desc, bo, type(ex).__name__, ex))
        if d:
            raise Violation('%r with %s was written (%s endian) as something else: %s' % (cls, desc, bo, '; '.join(d)))
        ctx.count('writes_kept')
        ctx.seen(cls, 'kept', desc if desc.startswith('partial') else desc.split(' ')[0])


def partial_case(ctx, rng, n):
    """optional fields set one by one: the format groups some of them"""
    kinds = sorted(fmt.KINDS)
    cls = kinds[n % len(kinds)]
    g = libio.rand_graph(rng, 1, want=[b'ATTR', cls], root_cls=cls if cls in (b'ABIN', b'BINF') else None, wild=False)
    f = ctx.avb.open()
    i = rng.choice([j for j in fmt.order_of(g) if g.objs[j].cls == cls])
    full = full_model(cls, rng)
    m = g.objs[i]
    opt = [k for k in full if k not in m.f and k in libio.schema(cls)]
    f.content = libio.Builder(f).graph(g)
    e = edit.Editor(ctx, f, g, rng)
    opt = [k for k in opt if k not in m.f]
    if not opt:
        ctx.count('nothing_to_try')
        return
    o = e.get(i)
    names = rng.sample(opt, rng.choice([1, 1, 2, len(opt)]) if len(opt) > 1 else 1)
    for k in names:
        setattr(o, k, e.value(full[k], k, libio.schema(cls)[k], cls))
    judge(ctx, f, cls, 'partial ' + ','.join(names))


def locks_case(ctx, rng, n):
    """lock numbers, which are stored for all tracks once one has one"""
    f = ctx.avb.open()
    o = rng.choice([f.create.Composition, f.create.EssenceGroup])()
    if f.content.attributes is None:
        f.content.attributes = f.create.Attributes()
    f.content.attributes[u'o'] = o
    want = []
    for k in range(rng.randint(1, 5)):
        t = f.create.Track()
        t.index = k
        if rng.random() < 0.5:
            t.component = f.create.Filler(media_kind='picture')
        w = None
        if rng.random() < 0.5:
            w = t.lock_number = rng.choice([0, 1, -1, 32767, -32768, 7])
        o.tracks.append(t)
        want.append(w)
    for bo in ('little', 'big'):
        out = scen.save(ctx, f, bo)
        with libio.open_bytes(ctx.avb, out, ctx.mode) as h:
            got = [getattr(t, 'lock_number', None) for t in h.content.attributes[u'o'].tracks]
        if len(got) != len(want) or [1 for a, b in zip(got, want) if (a or 0) != (b or 0)]:
            raise Violation('lock numbers %r of a %s are read back as %r (%s endian)' % (want, type(o).__name__, got, bo))
        ctx.count('lock_numbers', len([w for w in want if w]))
    ctx.seen('locks', tuple(w is not None for w in want))


def full_model(cls, rng):
    g = libio._All(cls, rng, lambda n, c, r: None)
    fmt.KINDS[cls][1](g)
    return g.o


def mutate(ctx, rng, o, m):
    """puts one hostile value into the library object o (model m); returns its description"""
    if m.cls == b'ATTR':
        what = rng.choice(['key', 'int', 'str', 'blob', 'type', 'null'])
        key, val = u'k', 1
        if what == 'key':
            key = rng.choice([u'x' * 65534, u'x' * 65535, u'\u6f22', u'\ud800', 5, None, b'abc', u''])
        elif what == 'int':
            val = rng.choice(INTS)
        elif what == 'str':
            val = rng.choice([u'x' * 65534, u'x' * 65535, u'\u6f22' * 21844, u'\u6f22' * 21845, u'\ud800', u'\u6f22'])
        elif what == 'blob':
            val = bytearray(rng.choice([0, 65535, 65536, 200000]))
        elif what == 'type':
            val = rng.choice([1.5, [1], (1,), {}, object(), {'a': 1}])
        else:
            val = None
        o[key] = val
        return 'attribute %s %s' % (what, repr((key, val))[:60])
    if m.cls in (b'PRLS', b'TMCS'):
        x = rng.choice([u'a', 1.5, b'x', []])
        o.append(x)
        return 'list entry %r' % (x,)
    f = dict((k, m.f[k]) for k in m.f if k in libio.schema(m.cls))
    ps = [(p, v) for p, v in leaves(f) if p]
    for t in range(6 if ps else 0):
        p, v = rng.choice(ps)
        names = [x for k, x in p if k == 'attr']
        field = names[0] if len(names) == 1 else None
        if field in ('byte_order', 'large_bin'):
            continue            # derived: the order of the file, the size of the bin
        h = hostile(ctx, rng, field, v)
        if h is None or names[0] in libio.PLAIN_DICTS and len(p) > 1 and p[-1][0] == 'idx':
            continue
        desc, x = h
        # only the owner's own attribute: assigning marks it as edited
        holder = o
        first = p[0][1]
        top = getattr(o, first)
        path = p[1:]
        if isinstance(x, tuple) and x[0] == 'repeat':
            cur = edit.follow(o, adapt(p, m.cls))
            x = (list(cur) * (x[1] // len(cur) + 1))[:x[1]]
        if not path:
            setattr(o, first, x)
        else:
            ap = adapt(p, m.cls)
            holder = edit.follow(o, ap[:-1])
            k, last = ap[-1]
            if k == 'attr':
                setattr(holder, last, x)
            else:
                holder[last] = x
            setattr(o, first, top)
        return '%s = %s' % ('.'.join(str(x) for k, x in p), desc)
    return None


def adapt(p, cls):
    """model path -> library path (plain dicts and pairs are indexed)"""
    out = []
    for n, (k, x) in enumerate(p):
        if k == 'attr' and n > 0 and p[0][1] in libio.PLAIN_DICTS:
            k = 'idx'
        if k == 'attr' and n > 0 and p[0][1] == 'sort_columns':
            k, x = 'idx', {'direction': 0, 'column': 1}[x]
        out.append((k, x))
    return out


def list_paths(_cache=[]):
    """(kind, path) of every list field of every kind, nested ones with index 0"""
    if not _cache:
        found = set()
        for cls in sorted(fmt.KINDS):
            for seed in range(12):
                for p, v in leaves(a_model(cls, random.Random(seed))[1].f):
                    if isinstance(v, list) and v and p and p[-1][0] == 'attr' and p[0][1] not in ('_items',):
                        found.add((cls, tuple((k, 0 if k == 'idx' else x) for k, x in p)))
        _cache.extend(sorted(found, key=repr))
    return _cache


def a_model(cls, rng):
    """(graph, an object of a kind in it with all optional fields and its lists filled)"""
    g = libio.rand_graph(rng, 1, want=[b'ATTR', b'FILL', b'SCLP', b'CMPO', b'PRCL', b'MSML', b'FILE', cls], root_cls=cls if cls in (b'ABIN', b'BINF') else None,
                         wild=False, null=0, maxlist=2, full=True)
    return g, [g.objs[j] for j in fmt.order_of(g) if g.objs[j].cls == cls][-1]


COUNTS = [32767, 32768, 65535, 65536, 127, 128, 255, 256]


def counts_case(ctx, rng, n):
    """lists as long as their count can say, and longer"""
    paths = list_paths()
    if ctx.tier == 'quick':
        # fields kinds have in common once
        paths = sorted(dict(((p, c == b'TMCS'), (c, p)) for c, p in reversed(paths)).values(), key=repr)
    cls, path = paths[n % len(paths)]
    size = COUNTS[n // len(paths) % len(COUNTS)] if ctx.tier == 'thorough' else [32768, 65536, rng.choice([128, 256, 32767])][n // len(paths) % 3]
    for k in range(40):
        g, m = a_model(cls, rng)
        v = m.f
        try:
            for w, x in path:
                v = v[x]
        except (KeyError, IndexError):
            v = None
        if v:
            break
    else:
        raise Skip('no such list')
    f = ctx.avb.open()
    f.content = libio.Builder(f).graph(g)
    e = edit.Editor(ctx, f, g, rng)
    o = e.get([j for j in g.objs if g.objs[j] is m][0])
    desc = '%s of %d entries' % ('.'.join(str(x) for k, x in path), size)
    if path[0][1] == '_refs':
        cur = list(o)
        o.extend((cur * (size // len(cur) + 1))[len(cur):size])
    else:
        ap = adapt(path, cls)
        cur = edit.follow(o, ap)
        new = (list(cur) * (size // len(cur) + 1))[:size]
        if len(ap) == 1:
            setattr(o, ap[0][1], new)
        else:
            top = getattr(o, ap[0][1])
            holder = edit.follow(o, ap[:-1])
            if ap[-1][0] == 'attr':
                setattr(holder, ap[-1][1], new)
            else:
                holder[ap[-1][1]] = new
            setattr(o, ap[0][1], top)
    ctx.count('long_lists')
    judge(ctx, f, cls, desc)


WORKLOADS = {'locks': locks_case, 'counts': counts_case, 'scene': scene_case, 'refuse': refuse_case, 'deep': deep_case, 'partial': partial_case}
