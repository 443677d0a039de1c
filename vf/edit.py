# -*- coding: utf-8 -*-
"""Random edits applied in parallel to a library file and to its model graph."""
from . import fmt, libio
from .common import HarnessError, Violation, collect


def steps_of(obj):
    """[(path step, id)] for every reference of a model object"""
    out = []
    if obj.cls == b'ATTR':
        for k, t, v in obj.f['_items']:
            if t == 3 and v is not None:
                out.append(((('key', k),), v.id))
        return out

    def walk(v, path):
        if isinstance(v, fmt.Ref):
            out.append((tuple(path), v.id))
        elif isinstance(v, dict):
            for k in v:
                walk(v[k], path + [('attr', k)])
        elif isinstance(v, list):
            for i, x in enumerate(v):
                walk(x, path + [('idx', i)])
    if obj.cls in (b'PRLS', b'TMCS'):
        walk(obj.f['_refs'], [])
    else:
        walk(obj.f, [])
    return out


def follow(o, path):
    for k, x in path:
        o = getattr(o, x) if k == 'attr' else o[x]
    return o


def valid(obj):
    """does the model object survive its own encoding (dependent fields are consistent)?"""
    ids = dict((i, i) for i in fmt.refs_of(obj))
    try:
        back = fmt.decode(obj.cls, fmt.encode(obj, 'little', ids), 'little')
    except (fmt.FormatError, Exception):
        return False
    ga, gb = fmt.Graph(), fmt.Graph()
    for g, o in ((ga, obj), (gb, back)):
        g.root = 0
        g.objs[0] = o
        for i in ids:
            g.objs[i] = fmt.Obj(b'FILL', {})
    return not fmt.compare(ga, gb)


def unfold(g, i=None, limit=4000):
    """the graph below i as a tree (nothing shared); None when that is too large"""
    t = fmt.Graph()
    t.objs = {}
    r = expand(g, i or g.root, t.objs, limit)
    if r is None:
        return None
    t.root = r
    return t


def expand(g, i, out, limit=60):
    """deep copy of the subtree below i as a tree with ids of its own in out; None when large"""
    budget = [limit]

    def go(i):
        budget[0] -= 1
        if budget[0] < 0:
            return None
        o = g.objs[i]
        n = max(out) + 1 if out else 1
        out[n] = None

        def sub(v):
            if isinstance(v, fmt.Ref):
                r = go(v.id)
                return fmt.Ref(r) if r else None
            if isinstance(v, dict):
                return dict((k, sub(v[k])) for k in v)
            if isinstance(v, list):
                return [sub(x) for x in v]
            return v
        out[n] = fmt.Obj(o.cls, sub(o.f))
        return n
    keep = dict(out)
    try:
        r = go(i)
    except RecursionError:
        budget[0] = -1
    if budget[0] < 0:
        out.clear()
        out.update(keep)
        return None
    return r


class Editor(object):
    def __init__(self, ctx, f, g, rng, hold=0.0, wild=True):
        self.ctx, self.f, self.g, self.rng = ctx, f, g, rng
        self.hold = hold
        self.held = {}
        self.b = libio.Builder(f)
        self.log = []
        self.wild = wild
        self.n = 0
        self.tag = u'%x_' % rng.getrandbits(28)     # keys of several editors never collide

    # -------------------------------------------------------- navigation
    def reach(self):
        return fmt.order_of(self.g)

    def path(self, target):
        """a random path from the root"""
        rng = self.rng
        seen = {self.g.root: None}
        todo = [self.g.root]
        while todo and target not in seen:
            i = todo.pop(rng.randrange(len(todo)))
            st = steps_of(self.g.objs[i])
            rng.shuffle(st)
            for p, j in st:
                if j not in seen:
                    seen[j] = (i, p)
                    todo.append(j)
        if target not in seen:
            raise HarnessError('unreachable')
        out = []
        i = target
        while seen[i]:
            i, p = seen[i]
            out.insert(0, p)
        return out

    def get(self, i):
        if i in self.held and self.rng.random() < 0.5:
            return self.held[i]
        o = self.f.content
        for p in self.path(i):
            o = follow(o, p)
        if o is None:
            raise Violation('a reference that was set is null: path to object %d' % i)
        if self.rng.random() < self.hold:
            if i in self.held and self.held[i] is not o:
                raise Violation('two paths to one live object give different objects')
            self.held[i] = o
        return o

    def refv(self, r):
        return None if r is None else self.get(r.id)

    # ------------------------------------------------------------- picks
    def pick_for(self, i):
        reach = self.reach()
        ok = [j for j in reach if not libio.any_path(self.g, j, i)] if i is not None else reach

        def pick(field, cls, r):
            if r.random() < 0.25:
                return None
            pool = [j for j in ok if self.g.objs[j].cls in libio.FIELD_KINDS.get(field, ())]
            return fmt.Ref(r.choice(pool)) if pool else None
        return pick

    def value(self, v, name, sub, cls):
        self.b.made = _Lazy(self)
        return self.b.value(v, name, sub, cls)

    # ------------------------------------------------------------- edits
    def choose(self, pred=lambda o: True):
        ids = [i for i in self.reach() if pred(self.g.objs[i])]
        return self.rng.choice(ids) if ids else None

    def set_fields(self, i=None):
        rng = self.rng
        i = i or self.choose(lambda o: o.cls not in (b'ATTR', b'PRLS', b'TMCS'))
        if i is None:
            return
        o = self.g.objs[i]
        fresh = fmt.generate(o.cls, rng, self.pick_for(i), wild=self.wild)
        names = [n for n in fresh.f if n in libio.schema(o.cls)]
        for n in list(names):     # optional fields the library has no way to remove
            pass
        k = rng.choice([1, 1, 1, 2, 3, len(names)])
        sub = rng.sample(names, min(k, len(names)))
        new = fmt.Obj(o.cls, dict(o.f))
        for n in sub:
            new.f[n] = fresh.f[n]
        if not valid(new):
            # dependent fields: take the whole object
            sub = names
            for n in sub:
                new.f[n] = fresh.f[n]
            if not valid(new):
                return
        obj = self.get(i)
        vals = [(n, self.value(fresh.f[n], n, libio.schema(o.cls)[n], o.cls)) for n in sub]
        rng.shuffle(vals)
        for n, v in vals:
            setattr(obj, n, v)
        self.g.objs[i] = new
        self.log.append('set %s %s' % (o.cls.decode(), ','.join(sub)))
        self.ctx.count('edit_set')
        return i

    def attr_value(self, i):
        rng = self.rng
        t = rng.randint(1, 4)
        if t == 1:
            return t, rng.choice([0, -1, 2**31 - 1, -2**31, rng.randint(-1000, 1000)])
        if t == 2:
            return t, u''.join(rng.choice(fmt.MAC_CHARS) for x in range(rng.randint(0, 9)))
        if t == 4:
            return t, bytes(bytearray(rng.getrandbits(8) for x in range(rng.randint(0, 20))))
        return t, self.pick_for(i)('_attr', b'ATTR', rng)

    def libval(self, t, v):
        return self.refv(v) if t == 3 else (bytearray(v) if t == 4 else v)

    def attr_op(self, i=None):
        rng = self.rng
        i = i or self.choose(lambda o: o.cls == b'ATTR')
        if i is None:
            return
        it = [list(x) for x in self.g.objs[i].f['_items']]
        a = self.get(i)
        op = rng.choice(['set', 'set', 'new', 'new', 'del', 'pop', 'popitem', 'update', 'setdefault', 'clear', 'popd'])
        keys = [x[0] for x in it]
        if op in ('set', 'del', 'pop') and not it:
            op = 'new'
        if op == 'popitem' and not it:
            op = 'clear'
        if op == 'clear' and rng.random() < 0.7:
            op = 'new'
        if op == 'set':
            n = rng.randrange(len(it))
            t, v = self.attr_value(i)
            a[keys[n]] = self.libval(t, v)
            it[n] = [keys[n], t, v]
        elif op in ('new', 'setdefault'):
            self.n += 1
            k = u'new%s%d' % (self.tag, self.n)
            t, v = self.attr_value(i)
            if op == 'new':
                a[k] = self.libval(t, v)
            else:
                a.setdefault(k, self.libval(t, v))
            it.append([k, t, v])
        elif op == 'update':
            d = []
            for x in range(rng.randint(1, 3)):
                self.n += 1
                d.append([u'upd%s%d' % (self.tag, self.n)] + list(self.attr_value(i)))
            if keys and rng.random() < 0.5:
                k = rng.choice(keys)
                d.append([k] + list(self.attr_value(i)))
            a.update([(k, self.libval(t, v)) for k, t, v in d])
            for x in d:
                if x[0] in keys:
                    it[keys.index(x[0])] = x
                else:
                    it.append(x)
        elif op == 'del':
            n = rng.randrange(len(it))
            del a[keys[n]]
            del it[n]
        elif op == 'pop':
            n = rng.randrange(len(it))
            a.pop(keys[n])
            del it[n]
        elif op == 'popd':
            a.pop(u'no such key', None)
        elif op == 'popitem':
            a.popitem()
            it.pop()
        else:
            a.clear()
            it = []
        self.g.objs[i].f['_items'] = it
        self.log.append('attr %s' % op)
        self.ctx.count('edit_attr')
        return i

    LISTCLS = (b'SEQU', b'PRLS', b'TMCS')

    def list_op(self, i=None):
        rng = self.rng
        i = i or self.choose(lambda o: o.cls in self.LISTCLS)
        if i is None:
            return
        o = self.g.objs[i]
        name = fmt.REFLISTS[o.cls]
        m = list(o.f[name])
        pick = self.pick_for(i)

        def fresh():
            for x in range(8):
                r = pick(name, o.cls, rng)
                if r is not None:
                    return r
            return None
        obj = self.get(i)
        li = obj if name == '_refs' else getattr(obj, name)
        op = rng.choice(['append', 'append', 'extend', 'iadd', 'insert', 'setitem', 'del', 'pop', 'pop0', 'remove',
                         'clear', 'reverse', 'delslice', 'setslice', 'sort'])
        if not m and op in ('setitem', 'del', 'pop', 'pop0', 'remove'):
            op = 'append'
        if op in ('clear', 'delslice') and rng.random() < 0.6:
            op = 'append'
        if op == 'append':
            r = fresh()
            li.append(self.refv(r))
            m.append(r)
        elif op in ('extend', 'iadd', 'setslice'):
            rs = [fresh() for x in range(rng.randint(0, 3))]
            vals = [self.refv(r) for r in rs]
            if op == 'extend':
                li.extend(vals)
                m.extend(rs)
            elif op == 'iadd':
                if name == '_refs':
                    li += vals
                else:
                    x = li
                    x += vals
                m += rs
            else:
                a = rng.randint(0, len(m))
                b = rng.randint(a, len(m))
                li[a:b] = vals
                m[a:b] = rs
        elif op == 'insert':
            r = fresh()
            k = rng.randint(-len(m) - 1, len(m) + 1)
            li.insert(k, self.refv(r))
            m.insert(k, r)
        elif op == 'setitem':
            r = fresh()
            k = rng.randrange(-len(m), len(m))
            li[k] = self.refv(r)
            m[k] = r
        elif op == 'del':
            k = rng.randrange(-len(m), len(m))
            del li[k]
            del m[k]
        elif op == 'pop':
            li.pop()
            m.pop()
        elif op == 'pop0':
            li.pop(0)
            m.pop(0)
        elif op == 'remove':
            r = rng.choice(m)
            # equal objects: an attribute map equals another one with the same content
            if r is not None and o.cls == b'SEQU' or r is None:
                li.remove(self.refv(r))
                for k, x in enumerate(m):
                    if (x is None) == (r is None) and (r is None or x.id == r.id):
                        del m[k]
                        break
        elif op == 'clear':
            li.clear()
            m = []
        elif op == 'reverse':
            li.reverse()
            m.reverse()
        elif op == 'delslice':
            a = rng.randint(0, len(m))
            b = rng.randint(a, len(m))
            del li[a:b]
            del m[a:b]
        elif op == 'sort':
            objs = [None if r is None else self.get(r.id) for r in m]
            keyof = dict((id(x), (n * 7919) % 101) for n, x in enumerate(objs))

            def key(x):
                return keyof[id(x)]
            order = sorted(range(len(m)), key=lambda n: keyof[id(objs[n])])
            li.sort(key=key)
            m = [m[n] for n in order]
        o.f[name] = m
        self.log.append('list %s' % op)
        self.ctx.count('edit_list')
        return i

    def attach(self, o, i):
        """makes the new object i reachable"""
        a = self.choose(lambda x: x.cls == b'ATTR')
        if a is None:
            return False
        self.n += 1
        k = u'obj%s%d' % (self.tag, self.n)
        self.get(a)[k] = o
        self.g.objs[a].f['_items'] = self.g.objs[a].f['_items'] + [[k, 3, fmt.Ref(i)]]
        return True

    def new(self, cls=None):
        rng = self.rng
        if self.choose(lambda x: x.cls == b'ATTR') is None:
            return
        cls = cls or rng.choice(sorted(c for c in fmt.KINDS if c not in (b'ABIN', b'BINF')))
        m = fmt.generate(cls, rng, self.pick_for(None), wild=self.wild)
        self.b.made = _Lazy(self)
        o = self.b.new(cls)
        i = max(self.g.objs) + 1
        self.b.fill(o, m)
        self.g.objs[i] = m
        # no cycles: hang it below an attribute map it cannot reach
        roots = [x for x in self.reach() if self.g.objs[x].cls == b'ATTR' and not libio.any_path(self.g, i, x)]
        if not roots:
            del self.g.objs[i]
            return
        a = rng.choice(roots)
        self.n += 1
        k = u'obj%s%d' % (self.tag, self.n)
        self.get(a)[k] = o
        self.g.objs[a].f['_items'] = self.g.objs[a].f['_items'] + [[k, 3, fmt.Ref(i)]]
        self.log.append('new %s' % cls.decode())
        self.ctx.count('edit_new')
        return i

    def copy(self):
        rng = self.rng
        i = self.choose(lambda o: o.cls not in (b'ABIN', b'BINF'))
        if i is None:
            return
        roots = [x for x in self.reach() if self.g.objs[x].cls == b'ATTR']
        if not roots:
            return
        objs = dict(self.g.objs)
        n = expand(self.g, i, objs)
        if n is None:
            return
        o = self.get(i).copy(self.f)
        self.g.objs = objs
        a = rng.choice(roots)
        self.n += 1
        k = u'copy%s%d' % (self.tag, self.n)
        self.get(a)[k] = o
        self.g.objs[a].f['_items'] = self.g.objs[a].f['_items'] + [[k, 3, fmt.Ref(n)]]
        self.log.append('copy %s' % self.g.objs[i].cls.decode())
        self.ctx.count('edit_copy')
        return n

    def drop(self):
        self.held.clear()
        collect()
        self.log.append('gc')
        self.ctx.count('edit_gc')

    def read(self):
        for x in range(3):
            i = self.choose()
            libio.Snapper().one(self.get(i))

    OPS = ['set_fields'] * 5 + ['attr_op'] * 4 + ['list_op'] * 3 + ['new', 'copy', 'drop', 'read']

    def step(self, ops=None):
        op = self.rng.choice(ops or self.OPS)
        return getattr(self, op)()


class _Lazy(object):
    def __init__(self, e):
        self.e = e

    def __getitem__(self, i):
        return self.e.get(i)
