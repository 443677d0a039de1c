# -*- coding: utf-8 -*-
"""Operations of lists and maps, described without objects so that the same operation can be applied
to a library container and to a plain Python list or dict.

Entries are named by tokens: None or the number of an object (class Tok), plain values otherwise."""
import copy
import operator


class Tok(object):
    """stands for the stored object number n"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Tok) and o.n == self.n

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('tok', self.n))

    def __repr__(self):
        return 'Obj%d' % self.n


class Side(object):
    """library side: tokens become objects of the file, objects become tokens"""

    def __init__(self, f, by=None):
        self.f = f
        self.by = by or {}         # new objects: number -> object

    def obj(self, t):
        if isinstance(t, Tok):
            return self.by[t.n] if t.n in self.by else self.f.read_object(t.n)
        if isinstance(t, (list, tuple)):
            return type(t)(self.obj(x) for x in t)
        return t

    def tok(self, v, depth=0):
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return v
        for n in self.by:
            if self.by[n] is v:
                return Tok(n)
        if depth and hasattr(v, 'class_id') and hasattr(v, 'instance_id'):
            return Tok(v.instance_id)
        if isinstance(v, bytearray):
            return ('bytearray', bytes(v))
        if isinstance(v, (list, tuple)):
            return [self.tok(x, depth + 1) for x in v]
        if isinstance(v, dict):
            return ['dict'] + [[k, self.tok(x, depth + 1)] for k, x in v.items()]
        if hasattr(v, 'class_id') and hasattr(v, 'instance_id'):
            return Tok(v.instance_id)
        return ('placeholder', type(v).__name__)


class Plain(object):
    """model side: tokens are the entries"""

    def obj(self, t):
        return t

    def tok(self, v, depth=0):
        if v is None or isinstance(v, (bool, int, float, str, bytes, Tok)):
            return v
        if isinstance(v, bytearray):
            return ('bytearray', bytes(v))
        if isinstance(v, (list, tuple)):
            return [self.tok(x) for x in v]
        if isinstance(v, dict):
            return ['dict'] + [[k, self.tok(x)] for k, x in v.items()]
        return ('placeholder', type(v).__name__)


def sortkey(side):
    def key(x):
        t = side.tok(x, 1)
        return -1 if t is None else (t.n * 7919) % 101 if isinstance(t, Tok) else repr(t)
    return key


# ------------------------------------------------------------------- lists
LIST_READS = ['len', 'get', 'get', 'get', 'slice', 'slice', 'iter', 'reversed', 'in', 'index', 'index2', 'count', 'bool',
              'eq', 'ne', 'eqself', 'add', 'radd', 'mul', 'rmul', 'list', 'sorted', 'zip', 'unpack', 'enumerate', 'map', 'any',
              'isin', 'next', 'copymod', 'tuple', 'eqother', 'min']
LIST_EDITS = ['append', 'append', 'append', 'extend', 'extendgen', 'extendself', 'iadd', 'iaddtuple', 'imul', 'insert', 'insert',
              'set', 'set', 'setslice', 'setslicegen', 'setext', 'setself', 'del', 'delslice', 'delext', 'pop', 'popi', 'remove',
              'clear', 'sort', 'sortrev', 'reverse', 'swap', 'popall', 'filter', 'iterappend']


def rindex(rng, n):
    return rng.choice([0, -1, n - 1, n, -n, -n - 1, rng.randint(-n - 2, n + 2), rng.randint(0, max(0, n - 1)), rng.randint(0, max(0, n - 1)),
                       rng.randint(0, max(0, n - 1))])


def rslice(rng, n, step=False):
    def b():
        return rng.choice([None, None, rng.randint(-n - 2, n + 2), rng.randint(0, n)])
    s = rng.choice([None, 1, 2, -1, -2, 3, -3]) if step else None
    return (b(), b(), s)


def list_op(rng, n, pool, pgrow=0.6, reads=0.4):
    """one random operation on a list of n entries with objects from pool (tokens)"""
    def t():
        return rng.choice(pool)

    def ts(k=3):
        return [t() for x in range(rng.randint(0, k))]
    name = rng.choice(LIST_READS) if rng.random() < reads else rng.choice(LIST_EDITS)
    if n > 14 and name in ('imul', 'extendself', 'mul', 'rmul', 'setself'):
        name = 'delslice'
    if name in ('clear', 'popall', 'imul', 'delslice') and rng.random() < pgrow:
        name = 'append'
    return (name, [t(), rindex(rng, n), rslice(rng, n), rslice(rng, n, True), ts(), rng.randint(-1, 3), rindex(rng, n), rindex(rng, n)])


def apply_list(li, op, side):
    """(outcome, list afterwards): outcome is ('ok', tokens) or ('raises', exception name)"""
    name, (t, i, sl, se, ts, k, i2, i3) = op
    s1, s2 = slice(*sl), slice(*se)
    o = side.obj
    try:
        r = None
        if name == 'len':
            r = len(li)
        elif name == 'get':
            r = li[i]
        elif name == 'slice':
            r = li[s2]
        elif name == 'iter':
            r = [x for x in li]
        elif name == 'reversed':
            r = [x for x in reversed(li)]
        elif name in ('in', 'isin'):
            r = o(t) in li
        elif name == 'index':
            r = li.index(o(t))
        elif name == 'index2':
            r = li.index(o(t), i2, i3) if k % 2 else li.index(o(t), i2)
        elif name == 'count':
            r = li.count(o(t))
        elif name == 'bool':
            r = bool(li)
        elif name == 'eq':
            r = li == [o(x) for x in ts]
        elif name == 'ne':
            r = li != [o(x) for x in ts]
        elif name == 'eqself':
            r = [li == list(li), li != list(li), list(li) == li, li == li[:]]
        elif name == 'eqother':
            r = [li == None, li == 3, li == tuple(li), li != None]      # noqa: E711
        elif name == 'add':
            r = li + [o(x) for x in ts]
        elif name == 'radd':
            r = [o(x) for x in ts] + li
        elif name == 'mul':
            r = li * k
        elif name == 'rmul':
            r = k * li
        elif name == 'list':
            r = list(li)
        elif name == 'tuple':
            r = tuple(li)
        elif name == 'sorted':
            r = sorted(li, key=sortkey(side))
        elif name == 'min':
            r = [min(li, key=sortkey(side)), max(li, key=sortkey(side))]
        elif name == 'zip':
            r = [y for x, y in zip(range(99), li)]
        elif name == 'unpack':
            r = list((lambda *a: a)(*li))
        elif name == 'enumerate':
            r = [[x, y] for x, y in enumerate(li)]
        elif name == 'map':
            r = list(map(lambda x: x, li))
        elif name == 'any':
            r = [any(x is None for x in li), all(x is not None for x in li)]
        elif name == 'next':
            r = next(iter(li), None)
        elif name == 'copymod':
            r = list(li)[:k]
        elif name == 'append':
            r = li.append(o(t))
        elif name == 'extend':
            r = li.extend([o(x) for x in ts])
        elif name == 'extendgen':
            r = li.extend(o(x) for x in ts)
        elif name == 'extendself':
            r = li.extend(li)
        elif name == 'iadd':
            li += [o(x) for x in ts]
        elif name == 'iaddtuple':
            li += tuple(o(x) for x in ts)
        elif name == 'imul':
            li *= k
        elif name == 'insert':
            r = li.insert(i, o(t))
        elif name == 'set':
            li[i] = o(t)
        elif name == 'setslice':
            li[s1] = [o(x) for x in ts]
        elif name == 'setslicegen':
            li[s1] = (o(x) for x in ts)
        elif name == 'setext':
            # as many as there is room for, mostly
            want = len(range(*s2.indices(len(li))))
            vals = (ts * (want + 1))[:want] if i % 4 and ts else ts
            li[s2] = [o(x) for x in vals]
        elif name == 'setself':
            li[s1] = li
        elif name == 'del':
            del li[i]
        elif name == 'delslice':
            del li[s1]
        elif name == 'delext':
            del li[s2]
        elif name == 'pop':
            r = li.pop()
        elif name == 'popi':
            r = li.pop(i)
        elif name == 'remove':
            r = li.remove(o(t))
        elif name == 'clear':
            r = li.clear()
        elif name == 'sort':
            r = li.sort(key=sortkey(side))
        elif name == 'sortrev':
            r = li.sort(key=sortkey(side), reverse=True)
        elif name == 'reverse':
            r = li.reverse()
        elif name == 'swap':
            li[i], li[i2] = li[i2], li[i]
        elif name == 'popall':
            r = []
            while li:
                r.append(li.pop(0))
        elif name == 'filter':
            x = [y for y in li if y is not None]
            li[:] = x
        elif name == 'iterappend':
            # appending while iterating sees the new entries
            r = []
            for x in li:
                r.append(x)
                if len(r) < 3:
                    li.append(x)
        else:
            raise KeyError(name)
    except (IndexError, ValueError, TypeError, AttributeError) as e:
        return ('raises', type(e).__name__), li
    return ('ok', side.tok(r, 1)), li


# -------------------------------------------------------------------- maps
MAP_READS = ['len', 'get', 'get', 'getd', 'getdef', 'in', 'keys', 'values', 'items', 'iter', 'bool', 'eq', 'ne', 'reversed', 'dict',
             'keyset', 'itemin', 'valin', 'list', 'eqdict', 'unpack', 'or', 'sortedkeys', 'lenviews']
MAP_EDITS = ['set', 'set', 'set', 'set', 'del', 'pop', 'popd', 'popitem', 'popfirst', 'clear', 'setdefault', 'setdefault1', 'update',
             'updatepairs', 'updatekw', 'ior', 'move', 'movefirst', 'replace', 'updateself']


def map_op(rng, keys, allkeys, value, reads=0.4):
    name = rng.choice(MAP_READS) if rng.random() < reads else rng.choice(MAP_EDITS)
    if name == 'clear' and rng.random() < 0.7:
        name = 'set'

    def key():
        return rng.choice(keys) if keys and rng.random() < 0.6 else rng.choice(allkeys)
    d = []
    for x in range(rng.randint(0, 3)):
        k = key()
        if k not in [y[0] for y in d]:
            d.append((k, value()))
    return (name, [key(), value(), d])


def val(o, v):
    return bytearray(v[1]) if isinstance(v, tuple) and v[0] == 'bytearray' else o(v)


def apply_map(m, op, side):
    name, (k, v, d) = op
    o = side.obj
    from collections import OrderedDict
    try:
        r = None
        v = val(o, v)
        d = [(x, val(o, y)) for x, y in d]
        if name == 'len':
            r = len(m)
        elif name == 'get':
            r = m[k]
        elif name == 'getd':
            r = m.get(k)
        elif name == 'getdef':
            r = m.get(k, v)
        elif name == 'in':
            r = k in m
        elif name == 'keys':
            r = list(m.keys())
        elif name == 'values':
            r = list(m.values())
        elif name == 'items':
            r = [[x, y] for x, y in m.items()]
        elif name == 'iter':
            r = [x for x in m]
        elif name == 'list':
            r = list(m)
        elif name == 'bool':
            r = bool(m)
        elif name == 'eq':
            r = m == dict(d)
        elif name == 'ne':
            r = m != dict(d)
        elif name == 'eqdict':
            r = [m == dict(m.items()), m != dict(m.items()), m == None]    # noqa: E711
        elif name == 'reversed':
            r = list(reversed(m))
        elif name == 'dict':
            r = [[x, y] for x, y in dict(m.items()).items()]
        elif name == 'keyset':
            r = sorted(set(m.keys()) & set([k, u'new0']))
        elif name == 'itemin':
            r = [(k, v) in list(m.items())]
        elif name == 'valin':
            r = v in list(m.values())
        elif name == 'unpack':
            r = [[x, m[x]] for x in m]
        elif name == 'or':
            r = [sorted(set(m) | set(x for x, y in d))]
        elif name == 'sortedkeys':
            r = sorted(m)
        elif name == 'lenviews':
            r = [len(m.keys()), len(m.values()), len(m.items())]
        elif name == 'set':
            m[k] = v
        elif name == 'del':
            del m[k]
        elif name == 'pop':
            r = m.pop(k)
        elif name == 'popd':
            r = m.pop(k, v)
        elif name == 'popitem':
            r = list(m.popitem())
        elif name == 'popfirst':
            r = list(m.popitem(last=False))
        elif name == 'clear':
            r = m.clear()
        elif name == 'setdefault':
            r = m.setdefault(k, v)
        elif name == 'setdefault1':
            r = m.setdefault(k)
        elif name == 'update':
            r = m.update(OrderedDict(d))
        elif name == 'updatepairs':
            r = m.update(d)
        elif name == 'updatekw':
            r = m.update(**OrderedDict(d))
        elif name == 'updateself':
            r = m.update(m)
        elif name == 'ior':
            m |= OrderedDict(d)
        elif name == 'move':
            r = m.move_to_end(k)
        elif name == 'movefirst':
            r = m.move_to_end(k, last=False)
        elif name == 'replace':
            x = list(m.items())
            m.clear()
            m.update(x)
        else:
            raise KeyError('harness')
    except (KeyError, TypeError, ValueError, AttributeError) as e:
        if e.args == ('harness',):
            raise
        return ('raises', type(e).__name__), m
    return ('ok', side.tok(r, 1)), m
