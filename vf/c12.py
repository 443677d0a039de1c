# -*- coding: utf-8 -*-
"""C12: lazy loading is invisible"""
import weakref

from . import edit, fmt, libio, samples, scen
from .common import Violation, collect

PROPERTY = 'C12'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: random access histories with forced collections, every access compared with the stored object, identities and lifetimes watched through weak references'
LEVEL_NOTE = 'Sampling of files and access histories; every access is checked.'
RULE = ('history: the objects of a file are visited in random order over random paths (from the bin, by number, by kind, over the list '
        'of mobs, by mob id), read in random ways (values, text form, lists, maps, queries, chunks), kept or dropped, collected; each '
        'visit is compared with the stored object, all paths to a kept object must give that object, dropped ones must not be kept '
        'alive as edited, and a write afterwards must equal one of a freshly opened file; many: thousands of objects visited while all are kept. Distinct: path kinds and read kinds used, '
        'kind of object.')
ASSUMPTIONS = ['an object that was only read can be collected once the program drops it (held back objects count as edited)']
PLANS = {'quick': [('ext', 'sample', 8, 8), ('pure', 'sample', 8, 8), ('pure', 'history', 160, 4), ('ext', 'history', 120, 3), ('extpure', 'history', 30, 1), ('pure', 'many', 3, 1), ('ext', 'many', 3, 1)],
         'thorough': [('pure', 'history', 9000, 8), ('ext', 'history', 9000, 8), ('extpure', 'history', 3000, 8),
                      ('pure', 'sample', 280, 14), ('ext', 'sample', 280, 14),
                      ('pure', 'many', 40, 4), ('ext', 'many', 40, 4)]}
REQUIRED = {'visits': 5000, 'identities': 1000, 'released': 1000, 'writes_equal': 200, 'crowds': 6}


class View(libio.Snapper):
    """one object, its references by stored number"""

    def ref(self, o):
        if o is None:
            return None
        self.keep.append(o)
        return fmt.Ref(o.instance_id)


def stub(obj):
    g = fmt.Graph()
    g.objs = dict((('n', i), fmt.Obj(b'FILL', {'number': i})) for i in fmt.refs_of(obj))
    g.objs['root'] = fmt.Obj(obj.cls, renum(obj.f))
    g.root = 'root'
    return g


def renum(v):
    if isinstance(v, fmt.Ref):
        return fmt.Ref(('n', v.id))
    if isinstance(v, dict):
        return dict((k, renum(v[k])) for k in v)
    if isinstance(v, list):
        return [renum(x) for x in v]
    return v


class Reader(object):
    def __init__(self, ctx, f, g, rng):
        self.ctx, self.f, self.g, self.rng = ctx, f, g, rng
        self.e = edit.Editor(ctx, f, g, rng)
        self.ids = fmt.order_of(g)
        self.held = {}
        self.weak = {}
        self.mobs_kept = False
        self.used = set()

    def path(self, i):
        """the object i over a random kind of path"""
        rng, f, g = self.rng, self.f, self.g
        kind = rng.choice(['tree', 'tree', 'tree', 'number', 'kind', 'mobs', 'find', 'held'])
        cls = g.objs[i].cls
        if kind == 'mobs' and cls != b'CMPO' or kind == 'find' and 'mob_id' not in g.objs[i].f:
            kind = 'tree'
        self.used.add(kind)
        if kind == 'number':
            return f.read_object(i)
        if kind == 'kind':
            for o in f.iter_class_ids([cls]):
                if o.instance_id == i:
                    return o
            raise Violation('object %d is not among those of kind %r' % (i, cls))
        if kind == 'mobs':
            for o in f.content.mobs:
                if o is not None and o.instance_id == i:
                    return o
        if kind == 'find' and cls == b'CMPO':
            self.mobs_kept = True
            want = g.objs[i].f['mob_id']
            here = [it['mob'].id for it in g.objs[g.root].f['items'] if it['mob'] is not None
                    and g.objs[it['mob'].id].f.get('mob_id') == want]
            from avb.mobid import MobID
            o = f.content.find_by_mob_id(MobID(bytes_le=want))
            if here and o is None:
                raise Violation('the mob %d is not found by its id' % i)
            if i in here and len(here) == 1:
                return o
        if kind == 'held' and self.held:
            # over a reference of an object the program still has
            for j in self.held:
                for p, k in edit.steps_of(g.objs[j]):
                    if k == i:
                        return edit.follow(self.held[j], p)
        return self.e.get(i)

    def visit(self, i=None):
        i = i or self.rng.choice(self.ids)
        o = self.path(i)
        if o is None:
            raise Violation('object %d is null when accessed (%r)' % (i, self.g.objs[i].cls))
        if o.instance_id != i:
            raise Violation('a path to object %d leads to object %d' % (i, o.instance_id))
        if i in self.held:
            if self.held[i] is not o:
                raise Violation('two paths to object %d (%r), which is alive, give different objects' % (i, self.g.objs[i].cls))
            self.ctx.count('identities')
        self.reading(o, i)
        self.ctx.count('visits')
        if self.rng.random() < 0.4:
            self.held[i] = o
        if i not in self.weak:
            self.weak[i] = weakref.ref(o)

    def reading(self, o, i):
        rng = self.rng
        kind = rng.choice(['values', 'values', 'values', 'text', 'container', 'query', 'missing'])
        self.used.add(kind)
        m = self.g.objs[i]
        if kind == 'values':
            got = View().one(o)
            d = fmt.compare(stub(m), stub(got))
            if d:
                raise Violation('object %d read as something else: %s' % (i, '; '.join(d)))
        elif kind == 'text':
            try:
                repr(o)
                str(o)
            except ValueError:
                pass        # unknown codes
        elif kind == 'container':
            lists = [o] if isinstance(o, (list, dict)) else [v for v in (getattr(o, k) for k in m.f if hasattr(o, k)) if isinstance(v, list)]
            for li in lists:
                len(li)
                for x in li:
                    pass
                if isinstance(li, dict):
                    li.get(u'nothing')
                    li.keys(), list(li.values()), list(li.items()), u'x' in li, li == {}
                else:
                    li[:], li == [], li[1:3], list(reversed(li)), li.count(None), None in li
        elif kind == 'query':
            for name in ('media_kind', 'mob_type', 'usage', 'value_type_name', 'class_id', 'root', 'instance_id'):
                try:
                    getattr(o, name)
                except (AttributeError, ValueError, KeyError):
                    pass
            if m.cls == b'SEQU':
                try:
                    list(o.positions())
                    o.nearest_component_at_time(3)
                except (AttributeError, TypeError, ValueError, IndexError, AssertionError):
                    pass
        else:
            hasattr(o, 'no_such_attribute')
            try:
                o.get('no such', None)
            except AttributeError:
                pass

    def drop(self):
        """nothing read and dropped is kept"""
        self.held.clear()
        collect()
        collect()
        root = self.g.root
        for i in list(self.weak):
            if i == root:
                continue
            if self.weak[i]() is not None:
                if self.mobs_kept and self.g.objs[i].cls == b'CMPO':
                    continue        # the bin may remember mobs it has found
                raise Violation('object %d (%r) was only read and dropped, but is kept alive' % (i, self.g.objs[i].cls))
            self.ctx.count('released')
        self.weak.clear()


def chunk_reads(f, rng):
    for c in f.chunks():
        if rng.random() < 0.1:
            c.read()
        if rng.random() < 0.05:
            c.hex()
        if rng.random() < 0.02:
            break


def run(ctx, data, rng, steps, what):
    g = fmt.parse_file(data).graph
    with libio.open_bytes(ctx.avb, data, ctx.mode) as f0:
        bo = rng.choice(['little', 'big'])
        want = scen.save(ctx, f0, bo, 'fresh.avb')
    with libio.open_bytes(ctx.avb, data, ctx.mode) as f, libio.open_bytes(ctx.avb, data, ctx.mode) as other:
        r = Reader(ctx, f, g, rng)
        r2 = Reader(ctx, other, g, rng)
        pgc = rng.choice([0.02, 0.2, 0.5])
        for k in range(steps):
            x = rng.random()
            if x < 0.85:
                (r if rng.random() < 0.8 else r2).visit()
            elif x < 0.9:
                chunk_reads(f, rng)
            elif x < 0.93:
                scen.save(ctx, f, rng.choice(['little', 'big']))
            if rng.random() < pgc:
                if rng.random() < 0.5:
                    r.held = dict((i, r.held[i]) for i in r.held if rng.random() < 0.5)
                    collect()
                else:
                    r.drop()
        r.drop()
        out = scen.save(ctx, f, bo)
        if out != want:
            raise Violation('%s: saved after only reading it differs from being saved at once' % what)
        ctx.count('writes_equal')
        # a whole walk and a write again
        libio.content(f)
        r.drop()
        if scen.save(ctx, f, bo) != want:
            raise Violation('%s: saved after a complete walk it differs from being saved at once' % what)
        ctx.count('writes_equal')
        ctx.seen(tuple(sorted(r.used)), tuple(sorted(set(g.objs[i].cls for i in g.objs))))


def history(ctx, rng, n):
    g = libio.rand_graph(rng, rng.randint(2, 40), root_cls=b'ABIN' if rng.random() < 0.9 else b'BINF')
    order = libio.shuffled_order(g, rng) if rng.random() < 0.5 else None
    data = fmt.build_file(g, rng.choice(['little', 'little', 'big']), order)
    run(ctx, data, rng, rng.choice([10, 40, 100]), 'random file')


def sample(ctx, rng, n):
    fs = sorted(samples.files(), key=lambda p: -len(samples.data(p)))
    p = fs[n % len(fs)]
    run(ctx, samples.data(p), rng, 25 if p == fs[0] else 60, p.split('/')[-1])


def many(ctx, rng, n):
    """thousands of objects alive at once"""
    total = rng.choice([1200, 5000, 9000])
    f0 = ctx.avb.open()
    a = f0.content.attributes
    for k in range(total):
        o = a[u'%d' % k] = f0.create.Filler(media_kind='picture') if k % 7 else f0.create.Attributes()
        if k % 7:
            o.length = k
        else:
            o[u'k'] = k
    a = o = None
    data = scen.save(ctx, f0, rng.choice(['little', 'big']))
    with libio.open_bytes(ctx.avb, data, ctx.mode) as f:
        want = scen.save(ctx, f, 'little', 'fresh.avb')
    with libio.open_bytes(ctx.avb, data, ctx.mode) as f:
        a = f.content.attributes
        held = {}
        order = list(range(total))
        for turn in range(3):
            rng.shuffle(order)
            for k in order:
                o = a[u'%d' % k]
                if (o.length if k % 7 else o[u'k']) != k:
                    raise Violation('entry %d of %d is read as another one' % (k, total))
                if o.root is not f or f.read_object(o.instance_id) is not o:
                    raise Violation('object %d, which is alive, is read again by its number (%d alive)' % (o.instance_id, len(held)))
                if k in held:
                    ctx.count('identities')
                    if held[k] is not o:
                        raise Violation('two accesses of entry %d, which is alive, give different objects (%d alive)' % (k, len(held)))
                held[k] = o
                ctx.count('visits')
            if turn == 1:
                weak = []
                for k in list(held):
                    if rng.random() < 0.5:
                        weak.append(weakref.ref(held.pop(k)))
                o = None
                collect()
                if [1 for w in weak if w() is not None]:
                    raise Violation('objects that were only read and dropped are kept alive (%d alive)' % len(held))
                ctx.count('released', len(weak))
        held = o = None
        if scen.save(ctx, f, 'little') != want:
            raise Violation('saved after all %d objects were read it differs from being saved at once' % total)
        ctx.count('writes_equal')
    ctx.count('crowds')
    ctx.seen('many', total)


WORKLOADS = {'many': many, 'history': history, 'sample': sample}
