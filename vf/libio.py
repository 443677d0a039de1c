# -*- coding: utf-8 -*-
"""Bridge between the library under test and the reference model (fmt.py).

Only the public surface is used: attribute access, hasattr, create.<Kind>(), class_id,
list/dict behaviour of the containers.
"""
import datetime
import math
import random
import struct
import uuid

from . import fmt
from .common import Violation, HarnessError

PYNAMES = dict((c, fmt.KINDS[c][0]) for c in fmt.KINDS)
RATE_FIELDS = ('edit_rate', 'sample_rate')
STAMP_FIELDS = ('last_modified', 'creation_time')


# ------------------------------------------------------------------ schema
class _All(fmt.Gen):
    """every optional part present, one item per list"""

    def exts(self, spec):
        for tagno, names, fn in spec:
            fn(self)

    def nitems(self):
        return 1

    def items(self, name, cnt, fn, count_of=None):
        fmt.Gen.items(self, name, cnt, fn, 1)


class _R(random.Random):
    def random(self):
        return 0.0          # every optional track field present


def schema(cls, _cache={}):
    """{field: None | {nested field: ...}} for a kind"""
    if cls not in _cache:
        g = _All(cls, _R(1), lambda n, c, r: None)
        fmt.KINDS[cls][1](g)

        def shape(v):
            if isinstance(v, dict):
                return dict((k, shape(x)) for k, x in v.items())
            if isinstance(v, list) and v and isinstance(v[0], dict):
                return shape(v[0])
            return None
        _cache[cls] = shape(g.o)
    return _cache[cls]


PLAIN_DICTS = ('columns', 'format_descriptors', 'pixel_layout')


# ---------------------------------------------------------------- snapshot
def rate_of(v):
    """decimal rate of a library float, as (mantissa, exponent)"""
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return ('notarate', repr(v))
    if v != v or v in (float('inf'), float('-inf')):
        return ('notarate', repr(v))
    s = '%.11e' % v
    m, e = s.split('e')
    sign = -1 if m.startswith('-') else 1
    digits = m.replace('-', '').replace('.', '')
    m, e = int(digits) * sign, int(e) - 11
    while m and m % 10 == 0:
        m //= 10
        e += 1
    return (m, e if m else 0)


def stamp_of(v):
    if not isinstance(v, datetime.datetime):
        return ('notadate', repr(v))
    return int(math.floor(v.timestamp())) & 0xffffffff


class Snapper(object):
    """turns the object graph reachable from an object into a fmt.Graph"""

    def __init__(self, extra=False):
        self.g = fmt.Graph()
        self.ids = {}
        self.keep = []        # keeps objects alive: identity must stay stable
        self.todo = []

    def ref(self, o):
        if o is None:
            return None
        k = id(o)
        if k not in self.ids:
            self.ids[k] = len(self.ids) + 1
            self.keep.append(o)
            self.todo.append((self.ids[k], o))
        return fmt.Ref(self.ids[k])

    def run(self, obj):
        r = self.ref(obj)
        while self.todo:
            i, o = self.todo.pop(0)
            self.g.objs[i] = self.one(o)
        self.g.root = r.id
        return self.g

    def one(self, o):
        cls = bytes(o.class_id)
        if cls not in fmt.KINDS:
            raise Violation('an object of kind %r appears in the content' % (cls,))
        if cls == b'ATTR':
            items = []
            for k, v in o.items():
                items.append([k] + self.attr(v))
            return fmt.Obj(cls, {'_items': items})
        if cls in (b'PRLS', b'TMCS'):
            return fmt.Obj(cls, {'_refs': [self.ref_item(x) for x in o]})
        f = self.fields(o, schema(cls), cls)
        if 'media_kind_id' in schema(cls):
            for k in ('name', 'effect_id'):      # null strings of components
                if f.get(k) == u'':
                    f[k] = None
        return fmt.Obj(cls, f)

    def ref_item(self, x):
        if x is not None and not hasattr(x, 'class_id'):
            raise Violation('list entry is %r, not an object' % (x,))
        return self.ref(x)

    def attr(self, v):
        if isinstance(v, int):
            return [1, int(v)]
        if isinstance(v, str):
            return [2, v]
        if isinstance(v, (bytearray, bytes)):
            return [4, bytes(v)]
        return [3, self.ref_item(v)]

    def fields(self, o, sch, cls):
        out = {}
        for name in sch:
            if not hasattr(o, name):
                continue
            out[name] = self.value(getattr(o, name), name, sch[name], cls)
        return out

    def value(self, v, name, sub, cls):
        if sub is not None:
            if name in PLAIN_DICTS:
                return [dict(d) for d in v]
            if name == 'sort_columns':
                return [{'direction': d[0], 'column': d[1]} for d in v]
            if not isinstance(v, (list, tuple)):
                return ('notalist', repr(v))
            return [self.fields(x, sub, cls) for x in v]
        if name in RATE_FIELDS:
            return rate_of(v)
        if name in STAMP_FIELDS:
            return stamp_of(v)
        return self.plain(v)

    def plain(self, v):
        if v is None or isinstance(v, (bool, int, float, str, uuid.UUID)):
            return v
        if isinstance(v, (bytes, bytearray, memoryview)):
            return bytes(v)
        if hasattr(v, 'class_id') and hasattr(v, 'instance_id'):
            return self.ref(v)
        if isinstance(v, (list, tuple)):
            return [self.plain(x) for x in v]
        if type(v).__name__ == 'MobID':
            return bytes(v.bytes_le)
        if isinstance(v, datetime.datetime):
            return ('stamp', stamp_of(v))
        return ('unknown', type(v).__name__, repr(v)[:80])


def snap(obj):
    return Snapper().run(obj)


def content(f):
    return snap(f.content)


# ------------------------------------------------------------ exact memory
class Exact(object):
    """what is in memory below an object, with nothing normalised: every property that is present, with its type.

    Objects are numbered in the order of the walk."""

    def __init__(self):
        self.ids, self.keep, self.todo, self.out = {}, [], [], []

    def run(self, o):
        self.ref(o)
        while self.todo:
            self.out.append(self.one(self.todo.pop(0)))
        return self.out

    def ref(self, o):
        if id(o) not in self.ids:
            self.ids[id(o)] = len(self.ids)
            self.keep.append(o)
            self.todo.append(o)
        return ('object', self.ids[id(o)])

    def one(self, o):
        what = type(o).__name__
        if isinstance(o, list):
            return [(what,)] + [(k, self.value(x)) for k, x in enumerate(o)]
        if isinstance(o, dict):
            return [(what,)] + [(k, self.value(v)) for k, v in o.items()]
        return [(what,)] + [(p.name, self.value(getattr(o, p.name))) for p in o.propertydefs if hasattr(o, p.name)]

    def value(self, v):
        if v is None or isinstance(v, (bool, int, str, uuid.UUID)):
            return v if type(v) is not bool else ('bool', v)
        if isinstance(v, float):
            return ('float', v.hex())
        if isinstance(v, (bytes, bytearray, memoryview)):
            return ('bytes', bytes(v))
        if hasattr(v, 'propertydefs'):
            return self.ref(v)
        if isinstance(v, (list, tuple)):
            return ['list'] + [self.value(x) for x in v]
        if isinstance(v, dict):
            return ['dict'] + [(k, self.value(x)) for k, x in v.items()]
        if type(v).__name__ == 'MobID':
            return ('mobid', bytes(v.bytes_le))
        if isinstance(v, datetime.datetime):
            return ('date', repr(v))
        return ('other', type(v).__name__, str(v))


def exact(f):
    return Exact().run(f.content)


def exact_diff(a, b):
    """what the first difference of two exact memories is, or None"""
    for x, y in zip(a, b):
        if x == y:
            continue
        dx, dy = dict((k[0], k[1:]) for k in x), dict((k[0], k[1:]) for k in y)
        for k in list(dx) + list(dy):
            if dx.get(k) != dy.get(k):
                return '%s: %r was %s, is %s' % (x[0][0], k, str(dx.get(k, 'absent'))[:120], str(dy.get(k, 'absent'))[:120])
        return '%s: order was %s, is %s' % (x[0][0], [k[0] for k in x][:8], [k[0] for k in y][:8])
    if len(a) != len(b):
        return '%d parts, were %d' % (len(b), len(a))
    return None


# ------------------------------------------------------------------- build
def to_lib_rate(v):
    m, e = v
    return float(m) if e == 0 else float('%de%d' % (m, e))


class Builder(object):
    """builds model objects through the library's public constructors"""

    def __init__(self, f):
        self.f = f
        import avb.mobid
        self.MobID = avb.mobid.MobID
        self.made = {}

    def refv(self, r):
        return None if r is None else self.made[r.id]

    def graph(self, g, root=None):
        """creates all objects of the model, children first"""
        for i in fmt.order_of(g):
            self.made[i] = self.obj(g.objs[i])
        return self.made[g.root]

    def new(self, cls):
        return getattr(self.f.create, PYNAMES[cls])()

    def obj(self, m):
        o = self.new(m.cls)
        self.fill(o, m)
        return o

    def fill(self, o, m):
        cls = m.cls
        if cls == b'ATTR':
            for k, t, v in m.f['_items']:
                o[k] = self.refv(v) if t == 3 else (bytearray(v) if t == 4 else v)
            return
        if cls in (b'PRLS', b'TMCS'):
            for r in m.f['_refs']:
                o.append(self.refv(r))
            return
        self.setall(o, m.f, schema(cls), cls)
        # optional fields the constructor fills in although the model has none: they become part
        # of the expected content
        for name in schema(cls):
            if name not in m.f and hasattr(o, name):
                v = Snapper().value(getattr(o, name), name, schema(cls)[name], cls)
                if has_ref(v):
                    # a default that is itself an object: not part of the model
                    setattr(o, name, None)
                    v = None
                m.f[name] = v

    def setall(self, o, f, sch, cls):
        for name in sch:
            if name in f:
                setattr(o, name, self.value(f[name], name, sch[name], cls))

    def helper(self, name, cls):
        h = fmt.helper_for(cls, name)
        if h is None:
            raise HarnessError('no helper class for %r.%s' % (cls, name))
        return getattr(self.f.create, h)()

    def value(self, v, name, sub, cls):
        if sub is not None:
            if name in PLAIN_DICTS:
                return [dict(d) for d in v]
            if name == 'sort_columns':
                return [[d['direction'], d['column']] for d in v]
            out = []
            for d in v:
                h = self.helper(name, cls)
                self.setall(h, d, sub, cls)
                out.append(h)
            return out
        if name in RATE_FIELDS:
            return to_lib_rate(v)
        if name in STAMP_FIELDS:
            return datetime.datetime.fromtimestamp(v)
        if name == 'mob_id':
            return self.MobID(bytes_le=v)
        return self.plain(v)

    def plain(self, v):
        if isinstance(v, fmt.Ref):
            return self.refv(v)
        if isinstance(v, bytes):
            return bytearray(v)
        if isinstance(v, list):
            return [self.plain(x) for x in v]
        return v


def has_ref(v):
    if isinstance(v, fmt.Ref):
        return True
    if isinstance(v, dict):
        return any(has_ref(x) for x in v.values())
    if isinstance(v, list):
        return any(has_ref(x) for x in v)
    return False


# --------------------------------------------------------- model generation
# which kinds may stand in which reference fields (semantically sensible picks)
COMPONENTS = [b'SEQU', b'SCLP', b'TCCP', b'ECCP', b'TRKR', b'PRCL', b'CTRL', b'FILL', b'TKFX',
              b'PVOL', b'EQMB', b'MASK', b'STRB', b'SPED', b'REPT', b'RSET', b'TNFX', b'SLCT', b'ASPI']
DESCRIPTORS = [b'MDES', b'MDTP', b'MDFM', b'MDNG', b'MDFL', b'MULD', b'WAVE', b'AIFC', b'PCMA',
               b'MPGA', b'DIDD', b'CDCI', b'MPGI', b'JPED', b'RGBA', b'ANCD']
FIELD_KINDS = {
    'attributes': [b'ATTR'], 'session_attrs': [b'ATTR'], 'session_attr': [b'ATTR'],
    'view_setting': [b'BVst'], 'left_bob': [b'APOS', b'ABOB', b'DIDP'], 'right_bob': [b'ABOB', b'MPGP'],
    'precomputed': [b'SCLP', b'FILL', b'RSET'], 'param_list': [b'PRLS'], 'source_param_list': [b'PRLS'],
    'components': COMPONENTS, 'component': COMPONENTS, 'filler_proxy': [b'FILL', b'SEQU'],
    'bob_data': [b'APOS'], 'keyframes': [b'FXPS'], 'trackman': [b'TKMN'], 'descriptor': DESCRIPTORS,
    'locator': [b'FILE', b'WINF', b'URLL', b'MSML'], 'physical_media': DESCRIPTORS, 'mob': [b'CMPO'],
    'control_track': [b'PRCL', b'CTRL'], 'data_slots': [b'TKDS'], 'param_slots': [b'TKPS'],
    'tracker_data': [b'TKDA'], 'params': [b'TKPA'], 'clips': [b'SCLP', b'FILL'], 'clip5': [b'SCLP'],
    'clip6': [b'FILL'], 'descriptors': DESCRIPTORS, 'next_did_desc': [b'DIDD', b'CDCI'],
    '_attr': [b'ATTR', b'TMCS', b'GRFX', b'MCBR', b'MCMR', b'TMBC', b'SHLP', b'CCFX', b'AVUP', b'BVst'],
    'value': [b'GRFX', b'SHLP', b'CCFX', b'AVUP', b'ATTR'], '_refs': [b'PRIT', b'TMBC', b'MCMR'],
}


def rand_graph(rng, size=12, root_cls=None, null=0.25, share=0.35, want=None, **kw):
    """random acyclic graph of about `size` objects below a bin.  Created bottom-up, so that
    references always point at existing objects; everything else hangs off the bin."""
    g = fmt.Graph()
    by = {}
    root_cls = root_cls or rng.choice([b'ABIN', b'ABIN', b'BINF'])
    used = set()

    def pick(field, cls, r):
        if r.random() < null:
            return None
        pool = []
        for c in FIELD_KINDS.get(field, ()):
            pool += by.get(c, ())
        if not pool:
            return None
        fresh = [i for i in pool if i not in used]
        if fresh and r.random() > share:
            i = r.choice(fresh)
        else:
            i = r.choice(pool)
        used.add(i)
        return fmt.Ref(i)

    kinds = [c for c in fmt.KINDS if c not in (b'ABIN', b'BINF')]
    # leaves first gives references something to point at
    todo = list(want) if want else []
    while len(todo) < size:
        todo.append(rng.choice(kinds))
    rank = {b'ATTR': 0, b'GRFX': 0, b'SHLP': 0, b'CCFX': 0, b'AVUP': 0, b'MCBR': 0, b'CMPO': 9}
    todo.sort(key=lambda c: rank.get(c, 1 + rng.random() * 6))
    n = 0
    for c in todo:
        n += 1
        g.objs[n] = fmt.generate(c, rng, pick, **kw)
        by.setdefault(c, []).append(n)
    n += 1
    root = fmt.generate(root_cls, rng, pick, **kw)
    g.objs[n] = root
    g.root = n
    # hang every orphan below an attribute map of the bin
    reach = set(fmt.order_of(g))
    orphans = [i for i in g.objs if i not in reach]
    while orphans:
        i = max(orphans)
        if 'attributes' not in root.f or root.f['attributes'] is None:
            n += 1
            g.objs[n] = fmt.Obj(b'ATTR', {'_items': []})
            root.f['attributes'] = fmt.Ref(n)
        a = g.objs[root.f['attributes'].id]
        if g.objs[i].cls == b'CMPO':
            root.f['items'].append({'mob': fmt.Ref(i), 'x': 1, 'y': 2, 'keyframe': 3, 'user_placed': True})
        else:
            if any_path(g, i, root.f['attributes'].id):
                n += 1
                g.objs[n] = fmt.Obj(b'ATTR', {'_items': [[u'_prev', 3, root.f['attributes']]]})
                root.f['attributes'] = fmt.Ref(n)
                a = g.objs[n]
            a.f['_items'].append([u'orphan%d' % i, 3, fmt.Ref(i)])
        reach = set(fmt.order_of(g))
        orphans = [i for i in g.objs if i not in reach]
    return g


def any_path(g, a, b):
    seen = set()
    st = [a]
    while st:
        i = st.pop()
        if i == b:
            return True
        if i in seen:
            continue
        seen.add(i)
        st += fmt.refs_of(g.objs[i])
    return False


def kinds_in(g):
    return sorted(set(g.objs[i].cls.decode('ascii') for i in g.objs))


def clone(g):
    import copy
    return copy.deepcopy(g)


# ------------------------------------------------------------------- files
def open_bytes(avb, data, mode, **kw):
    import io
    return avb.open(io.BytesIO(data), use_ext=(mode != 'extpure'), **kw)


def shuffled_order(g, rng):
    """any order of the chunks is well-formed; references may point forwards"""
    o = fmt.order_of(g)
    rng.shuffle(o)
    return o
