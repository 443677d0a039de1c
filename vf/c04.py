# -*- coding: utf-8 -*-
"""C04: native and pure reader agree on every input"""
import datetime
import io
import uuid

from . import edit, fmt, hostile, libio, ops, samples, scen
from .common import Violation

PROPERTY = 'C04'
LEVEL = 'exploration'
TECHNIQUE = 'differential runtime monitoring: the same bytes, edits and saves are executed with the native reader and with the pure reader in one process and every observation is compared'
LEVEL_NOTE = 'Sampling of valid and damaged objects of every kind; every value, type, order and saved byte of each is compared.'
RULE = ('variant: objects of every kind, valid and damaged (bit flips, boundary bytes and words, truncation, insertion, deletion, '
        'splices of other objects, damage at counts, tags, markers and references), read with and without the native extension: '
        'both refuse or both give the same attributes in the same order with the same types, and the same bytes when saved. '
        'file: whole files read, edited by the same random edits and saved in both orders; equal after each. '
        'container: the same list and map operations, failing ones included. sample: the sample files. '
        'Distinct: kind x damage x outcome.')
ASSUMPTIONS = ['the native extension built by vf/extbuild.py from /repo/src is what a user gets from the build']
PLANS = {'quick': [('ext', 'sample', 14, 4), ('ext', 'variant', 180, 6), ('ext', 'file', 160, 4), ('ext', 'container', 400, 2)],
         'thorough': [('ext', 'sample', 28, 7), ('ext', 'variant', 6000, 16), ('ext', 'file', 6000, 12), ('ext', 'container', 16000, 8)]}
REQUIRED = {'variants_compared': 10000, 'both_refused': 2000, 'both_read': 3000, 'variants_saved': 500, 'files_compared': 150,
            'operations': 5000, 'sample_objects': 2000}


def typed(v, seen=0):
    """a value with the types it is made of; objects by kind and number"""
    if v is None or isinstance(v, (bool, int, str)):
        return (type(v).__name__, v)
    if isinstance(v, float):
        return ('float', repr(v))
    if hasattr(v, 'class_id') and hasattr(v, 'instance_id') and v.class_id:
        return ('object', bytes(v.class_id), v.instance_id)
    if isinstance(v, (bytes, bytearray)):
        return (type(v).__name__, bytes(v))
    if isinstance(v, dict):
        return (type(v).__name__, [[typed(k), typed(v[k])] for k in v])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [typed(x) for x in v])
    if isinstance(v, uuid.UUID):
        return ('uuid', v.hex)
    if isinstance(v, datetime.datetime):
        return ('datetime', v.isoformat())
    if type(v).__name__ == 'MobID':
        return ('MobID', bytes(v.bytes_le))
    return (type(v).__name__, fields(v))


def names(o):
    pd = getattr(o, 'property_data', None)
    return list(pd.keys()) if pd is not None else []


def fields(o):
    return [[n, outcome(lambda: typed(getattr(o, n)))] for n in names(o)]


REFUSE = (Exception,)


def outcome(fn):
    try:
        return ('ok', fn())
    except RecursionError:
        raise
    except REFUSE as e:
        return ('raises',)


def view(o):
    """everything about one object, in order"""
    cls = bytes(o.class_id)
    if cls == b'ATTR':
        return [cls, [[k, outcome(lambda: typed(o[k]))] for k in o.keys()]]
    if cls in (b'PRLS', b'TMCS'):
        return [cls, [outcome(lambda: typed(o[i])) for i in range(len(o))]]
    out = [cls, fields(o)]
    sch = libio.schema(cls)
    out.append(sorted(n for n in sch if outcome(lambda: hasattr(o, n)) == ('ok', True)))
    return out


def differ(a, b, path=''):
    """where two views differ"""
    if type(a) != type(b):
        return '%s: %r / %r' % (path, str(a)[:120], str(b)[:120])
    if isinstance(a, (list, tuple)):
        if len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    return differ(x, y, '%s/%s' % (path, a[0] if i and isinstance(a[0], str) else i))
        return '%s: %s / %s' % (path, str(a)[:300], str(b)[:300])
    return '%s: %r / %r' % (path, str(a)[:160], str(b)[:160])


def both(ctx, data):
    fn = ctx.avb.open(io.BytesIO(data), use_ext=True)
    fp = ctx.avb.open(io.BytesIO(data), use_ext=False)
    return fn, fp


def reads(f, i):
    return outcome(lambda: f.read_object(i))


def compare_object(ctx, fn, fp, i, what):
    a, b = reads(fn, i), reads(fp, i)
    if a[0] != b[0]:
        raise Violation('%s: %s by the native reader, %s by the pure one' % (what, said(a), said(b)))
    if a[0] == 'raises':
        return None
    va, vb = view(a[1]), view(b[1])
    if va != vb:
        raise Violation('%s: native / pure differ at %s' % (what, differ(va, vb)))
    return a[1], b[1]


def said(r):
    return 'refused' if r[0] == 'raises' else 'accepted'


def acyclic(o, fixed):
    """does it refer to nothing but the fixed objects?"""
    cls = bytes(o.class_id)
    s = libio.Snapper()
    try:
        s.one(o)
    except Exception:
        return False
    return all(1 < x.instance_id <= fixed for x in s.keep)


def variant(ctx, rng, n):
    cls = hostile.PLAIN[n % len(hostile.PLAIN)] if n % 3 else rng.choice([b'ATTR', b'SCLP', b'SEQU', b'CMPO', b'TKFX', b'PRCL',
                                                                          b'CTRL', b'PRIT', b'SLCT', b'MSML', b'STMP', b'PRLS', b'TMCS', b'EFF2'])
    if cls not in fmt.KINDS:
        cls = rng.choice(hostile.PLAIN)
    bed = hostile.Bed(rng, 'little' if rng.random() < 0.9 else 'big')
    made = []
    for k in range(rng.choice([1, 2, 3])):
        o, data, marks = bed.make(rng, cls, maxlist=rng.choice([0, 1, 2, 5]))
        made.append((bed.add(cls, data), 'valid', data))
        for x in range(40 if ctx.tier == 'quick' else 80):
            how, d = hostile.mutate(rng, data, marks, bed)
            made.append((bed.add(cls, d), how, d))
    fn, fp = both(ctx, bed.data())
    rng.shuffle(made)
    saves = 0
    for i, how, d in made:
        what = '%r (%s) %s' % (cls, how, d.hex()[:600])
        r = compare_object(ctx, fn, fp, i, what)
        ctx.count('variants_compared')
        ctx.count('both_read' if r else 'both_refused')
        ctx.seen(cls, how, bool(r))
        if not r:
            # and it keeps being refused
            if rng.random() < 0.1 and (reads(fn, i)[0] != 'raises' or reads(fp, i)[0] != 'raises'):
                raise Violation('%s: accepted when read again' % what)
            continue
        if saves < 8 and rng.random() < 0.3 and acyclic(r[0], bed.fixed) and acyclic(r[1], bed.fixed):
            saves += 1
            out = []
            for f, o in ((fn, r[0]), (fp, r[1])):
                f.content.attributes = f.create.Attributes()
                f.content.attributes[u'v'] = o
                out.append([outcome(lambda: scen.save(ctx, f, bo)) for bo in ('little', 'big')])
                f.content.attributes = None
            if out[0] != out[1]:
                raise Violation('%s: saved differently after being read by the native / pure reader: %s' % (what, differ(out[0], out[1])[:300]))
            ctx.count('variants_saved')


def all_objects(ctx, fn, fp, g, what):
    for i in g.objs:
        compare_object(ctx, fn, fp, i, '%s, object %d' % (what, i))


def saves(ctx, fn, fp, what):
    for bo in ('little', 'big'):
        a, b = scen.save(ctx, fn, bo), scen.save(ctx, fp, bo)
        if a != b:
            k = [x == y for x, y in zip(a, b)].index(False) if a[:min(len(a), len(b))] != b[:min(len(a), len(b))] else -1
            raise Violation('%s: saved %s endian, the bytes differ at %d (%d and %d bytes)' % (what, bo, k, len(a), len(b)))
    ctx.count('files_compared')


def file_case(ctx, rng, n):
    g = libio.rand_graph(rng, rng.randint(2, 30), maxlist=rng.choice([1, 3, 6]))
    order = libio.shuffled_order(g, rng) if rng.random() < 0.5 else None
    data = fmt.build_file(g, 'little', order)
    g = fmt.parse_file(data).graph
    fn, fp = both(ctx, data)
    how = rng.choice(['all', 'none', 'edit', 'edit', 'edit', 'edit'])
    if how == 'all':
        all_objects(ctx, fn, fp, g, 'random file')
    if how == 'edit':
        seed = rng.random()
        steps = rng.randint(1, 30)
        logs = []
        import random
        import avb.mobid
        for f in (fn, fp):
            r = random.Random(seed)
            e = edit.Editor(ctx, f, libio.clone(g), r, hold=0.3)
            for k in range(steps):
                e.step()
            logs.append(e.log)
        if logs[0] != logs[1]:
            raise Violation('the same edits took different ways: %s' % differ(logs[0], logs[1]))
        ctx.count('edits', len(logs[0]))
    saves(ctx, fn, fp, 'random file, %s' % how)
    if how == 'edit':
        a, b = libio.content(fn), libio.content(fp)
        d = fmt.compare(a, b)
        if d:
            raise Violation('content differs after the same edits: %s' % '; '.join(d))
    ctx.seen('file', how, tuple(libio.kinds_in(g)))


def container(ctx, rng, n):
    """lists and maps read by both readers under the same operations"""
    bed = hostile.Bed(rng, 'little')
    kind = rng.choice(['SEQU', 'PRLS', 'TMCS', 'ATTR', 'ATTR'])
    cls = kind.encode('ascii')
    o, data, marks = bed.make(rng, cls, maxlist=8)
    i = bed.add(cls, data)
    pool = [None] + [ops.Tok(bed.ids[c]) for c in (b'FILL', b'SCLP', b'TMBC', b'GRFX')]
    fn, fp = both(ctx, bed.data())
    objs = [f.read_object(i) for f in (fn, fp)]
    name = fmt.REFLISTS.get(cls)
    for k in range(rng.randint(3, 25)):
        if cls == b'ATTR':
            keys = list(objs[1].keys())
            op = ops.map_op(rng, keys, keys + [u'new%d' % x for x in range(3)],
                            lambda: rng.choice(pool + [1, u'x', ('bytearray', b'123')]))
            fnc, targets = ops.apply_map, objs
        else:
            targets = [x if name == '_refs' else getattr(x, name) for x in objs]
            op = ops.list_op(rng, len(targets[1]), pool)
            fnc = ops.apply_list
        res = [fnc(t, op, ops.Side(f))[0] for t, f in zip(targets, (fn, fp))]
        ctx.count('operations')
        ctx.seen(cls, op[0], res[0][0])
        if res[0] != res[1]:
            raise Violation('%r, operation %r: %r after the native reader, %r after the pure one' % (cls, op, res[0], res[1]))
        if rng.random() < 0.3:
            a, b = view(objs[0]), view(objs[1])
            if a != b:
                raise Violation('%r after %r: %s' % (cls, op, differ(a, b)))
    for f, x in zip((fn, fp), objs):
        f.content.attributes = f.create.Attributes()
        f.content.attributes[u'v'] = x
    out = [[outcome(lambda: scen.save(ctx, f, bo)) for bo in ('little', 'big')] for f in (fn, fp)]
    if out[0] != out[1]:
        raise Violation('%r saved differently after the same operations: %s' % (cls, differ(out[0], out[1])[:300]))


def sample(ctx, rng, n):
    fs = sorted(samples.files(), key=lambda p: -len(samples.data(p)))
    p = fs[n % len(fs)]
    data = samples.data(p)
    what = p.split('/')[-1]
    fn, fp = both(ctx, data)
    count = len(fmt.parse_file(data).chunks)
    for i in range(1, count + 1):
        compare_object(ctx, fn, fp, i, '%s, object %d' % (what, i))
        ctx.count('sample_objects')
    saves(ctx, fn, fp, what)
    ctx.seen('sample', what)


WORKLOADS = {'variant': variant, 'file': file_case, 'container': container, 'sample': sample}
