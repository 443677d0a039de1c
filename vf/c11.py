# -*- coding: utf-8 -*-
"""C11: new objects are valid, independent and have identities of their own"""
import datetime
import json
import os
import uuid

from . import deep, edit, fmt, libio, scen
from .common import Violation, Skip, collect, HERE

PROPERTY = 'C11'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: creation in random histories; values, numbers and identities of the mutable parts of every new object checked against all others'
LEVEL_NOTE = 'All kinds with their reviewed table of defaults; sampling of histories, constructor values and disturbances.'
RULE = ('defaults: every kind created in new and loaded files, with constructor values, by position and by name, compared with the '
        'table of documented defaults. numbers: histories of creating, loading, copying, dropping and collecting; the number of '
        'each object must belong to no other and reading stored numbers must give the stored objects. many: 66 000 and more objects created in one file. isolate: one new object is '
        'disturbed in all its parts; another one, one created later and one in another file must not notice. write: new objects are '
        'attached, saved and compared. Distinct: kind, file, operation.')
ASSUMPTIONS = ['vf/defaults.json is the table of documented defaults (property definitions and constructors, reviewed)',
               'kinds whose fields have no defaults can only be written once these are set (C01 does that)']
PLANS = {'quick': [('pure', 'defaults', 500, 1), ('ext', 'defaults', 500, 1), ('pure', 'numbers', 150, 1), ('ext', 'numbers', 150, 1), ('pure', 'many', 2, 1), ('ext', 'many', 1, 1),
                   ('pure', 'isolate', 500, 2), ('ext', 'isolate', 500, 2), ('pure', 'write', 300, 1), ('ext', 'write', 300, 1)],
         'thorough': [('pure', 'defaults', 5000, 4), ('ext', 'defaults', 5000, 4), ('pure', 'numbers', 5000, 8), ('ext', 'numbers', 5000, 8), ('pure', 'many', 12, 4), ('ext', 'many', 12, 4),
                      ('pure', 'isolate', 10000, 8), ('ext', 'isolate', 10000, 8), ('pure', 'write', 5000, 8), ('ext', 'write', 5000, 8)]}
REQUIRED = {'created': 5000, 'numbers_compared': 2000, 'created_in_bulk': 190000, 'parts_disturbed': 1000, 'written': 300}

with open(os.path.join(HERE, 'defaults.json')) as h:
    DEFAULTS = json.load(h)
NAMES = sorted(DEFAULTS)
COMPONENTS = sorted(n for n in NAMES if 'media_kind_id' in DEFAULTS[n] and n != 'Composition')
KINDS = {None: 0, 'picture': 1, 'sound': 2, 'timecode': 3, 'edgecode': 4, 'attribute': 5, 'effectdata': 6, 'DescriptiveMetadata': 7}
WRITABLE = ['Bin', 'BinFirst', 'Attributes', 'BinViewSetting', 'CDCIDescriptor', 'Composition', 'DIDDescriptor', 'Filler', 'MediaDescriptor',
            'MediaFileDescriptor', 'FilmDescriptor', 'NagraDescriptor', 'TapeDescriptor', 'ParameterList', 'EssenceGroup', 'SourceClip',
            'Sequence', 'Timecode', 'TimeCrumbList', 'TrackRef', 'URLLocator']


def plain(v):
    """a value in the notation of the table"""
    if v is None or isinstance(v, (bool, int, str, float)):
        return v
    if isinstance(v, (bytes, bytearray)):
        return ['bytes', bytes(v).hex()]
    if deep.is_mob_id(v):
        return ['mobid']
    if isinstance(v, datetime.datetime):
        return ['date']
    if isinstance(v, uuid.UUID):
        return ['uuid', str(v)]
    if getattr(v, 'class_id', None):
        return ['object', bytes(v.class_id).decode('ascii')]
    if isinstance(v, dict):
        return dict((k, plain(v[k])) for k in v)
    if hasattr(v, 'propertydefs') and not isinstance(v, list):
        return ['helper', type(v).__name__, dict((k, plain(x)) for k, x in deep.values(v))]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return ['other', type(v).__name__]


def values(o):
    if isinstance(o, (list, dict)):
        return {} if not len(o) else {'not': 'empty'}
    return dict((k, plain(v)) for k, v in deep.values(o))


def check_new(ctx, o, name, given, what, t0):
    want = dict(DEFAULTS[name])
    want.update(given)
    if 'uid' in want and want['uid'] == ['uid']:
        if not isinstance(o.uid, int) or not 0 < o.uid < 2**64:
            raise Violation('%s: uid %r' % (what, o.uid))
        want['uid'] = o.uid
    got = values(o)
    if got != want:
        for k in sorted(set(got) | set(want)):
            if k not in got or k not in want or got[k] != want[k]:
                raise Violation('%s: %s is %r, expected %r' % (what, k, got.get(k, 'absent'), want.get(k, 'absent')))
    for k in want:
        if type(got[k]) is not type(want[k]) and not isinstance(want[k], float):
            raise Violation('%s: %s is a %s, expected a %s' % (what, k, type(got[k]).__name__, type(want[k]).__name__))
        if want[k] == ['date']:
            v = getattr(o, k)
            if not t0 - datetime.timedelta(seconds=2) <= v <= datetime.datetime.now() + datetime.timedelta(seconds=2):
                raise Violation('%s: %s is %s, not now' % (what, k, v))
        if want[k] == ['object', 'ATTR'] and len(getattr(o, k)):
            raise Violation('%s: %s is not empty' % (what, k))
        if want[k] == ['object', 'BVst']:
            check_new(ctx, getattr(o, k), 'BinViewSetting', {}, what + '.' + k, t0)
    t = deep.twice(o)
    if t:
        raise Violation('%s: it has the same %s at two places (%s)' % (what, type(t[1]).__name__, t[0]))
    if name == 'Composition' and (o.mob_id is None or int(o.mob_id) == 0):
        raise Violation('%s: no mob id' % what)
    if name == 'SourceClip' and int(o.mob_id) != 0:
        raise Violation('%s: refers to a mob' % what)
    ctx.count('created')


def a_file(ctx, rng):
    """(file, its description)"""
    r = rng.random()
    if r < 0.5:
        return ctx.avb.open(), 'new'
    g = libio.rand_graph(rng, rng.randint(1, 8), want=[b'ATTR'])
    return libio.open_bytes(ctx.avb, fmt.build_file(g, rng.choice(['little', 'big'])), ctx.mode), 'loaded'


def create(f, name, rng):
    """(object, values given)"""
    make = getattr(f.create, name)
    if name in COMPONENTS and name not in ('AudioSuitePluginEffect',):
        args, given = {}, {}
        if rng.random() < 0.5:
            args['edit_rate'] = given['edit_rate'] = rng.choice([24, 30, 29.97, 23.976, 48000, 1, 59.94])
        if rng.random() < 0.5:
            k = rng.choice(sorted(KINDS, key=str))
            args['media_kind'] = k
            given['media_kind_id'] = KINDS[k]
        if rng.random() < 0.3 and len(args) == 2:
            return make(args['edit_rate'], args['media_kind']), given
        if rng.random() < 0.3:
            return f.create.from_name(name, **args), given
        return make(**args), given
    if name == 'Composition' and rng.random() < 0.7:
        n = rng.choice([u'', u'A mob', u'\u00e9'])
        t = rng.choice(['CompositionMob', 'MasterMob', 'SourceMob'])
        given = {'name': n, 'mob_type_id': {'CompositionMob': 1, 'MasterMob': 2, 'SourceMob': 3}[t]}
        r = rng.random()
        if r < 0.3:
            return make(n, t), given
        if r < 0.5:
            return make(mob_type=t), {'mob_type_id': given['mob_type_id']}
        if r < 0.7:
            return make(n), {'name': n}
        return make(name=n, mob_type=t), given
    return make(), {}


def defaults_case(ctx, rng, n):
    f, where = a_file(ctx, rng)
    t0 = datetime.datetime.now()
    for name in rng.sample(NAMES, 12):
        o, given = create(f, name, rng)
        if name == 'Composition' and type(o.mob_type) is not str:
            raise Violation('mob_type %r' % (o.mob_type,))
        check_new(ctx, o, name, given, 'new %s%s in a %s file' % (name, given or '', where), t0)
        ctx.seen(name, where, sorted(given))


def numbers_case(ctx, rng, n):
    g = libio.rand_graph(rng, rng.randint(1, 15), want=[b'ATTR'])
    if rng.random() < 0.3:
        f = ctx.avb.open()
        f.content = libio.Builder(f).graph(g)
        stored = 0
    else:
        f = libio.open_bytes(ctx.avb, fmt.build_file(g, rng.choice(['little', 'big'])), ctx.mode)
        stored = len(fmt.order_of(g))
    kinds = {}
    if stored:
        kinds = dict((i, c.class_id) for i, c in enumerate(f.chunks()) if i)
    e = edit.Editor(ctx, f, g, rng)
    new = {}
    held = []
    mobs = set()
    uids = set()
    for k in range(rng.randint(5, 40)):
        op = rng.choice(['create', 'create', 'create', 'read', 'gc', 'copy', 'edit', 'write', 'drop'])
        if op == 'create' or op == 'copy':
            if op == 'copy':
                i = e.choose(lambda o: o.cls not in (b'ABIN', b'BINF'))
                if i is None:
                    continue
                o = e.get(i).copy(f)
            else:
                o = getattr(f.create, rng.choice([x for x in NAMES if x in libio.PYNAMES.values()]))()
            for x in deep.objects(o):
                num = x.instance_id
                if 1 <= num <= stored:
                    raise Violation('a new %s has the number %d of a stored object' % (type(x).__name__, num))
                if num in new:
                    raise Violation('a new %s has the number %d of another new object' % (type(x).__name__, num))
                new[num] = type(x).__name__
                ctx.count('numbers_compared')
                if type(x).__name__ == 'Composition' and op == 'create':
                    if bytes(x.mob_id.bytes_le) in mobs:
                        raise Violation('two new mobs have the same mob id')
                    mobs.add(bytes(x.mob_id.bytes_le))
                if type(x).__name__ in ('Bin', 'BinFirst') and op == 'create':
                    if x.uid in uids:
                        raise Violation('two new bins have the same uid')
                    uids.add(x.uid)
            if rng.random() < 0.5:
                held.append(o)
        elif op == 'read':
            e.read()
        elif op == 'gc':
            collect()
        elif op == 'drop':
            held = []
            e.held.clear()
        elif op == 'edit':
            e.step(['set_fields', 'attr_op', 'list_op', 'new'])
        elif op == 'write':
            scen.save(ctx, f, rng.choice(['little', 'big']))
        for x in rng.sample(sorted(kinds), min(3, len(kinds))):
            o = f.read_object(x)
            if bytes(o.class_id) != bytes(kinds[x]):
                raise Violation('object %d is a %s after objects were created' % (x, type(o).__name__))
            if o.instance_id != x:
                raise Violation('object %d says its number is %d' % (x, o.instance_id))
    ctx.seen('numbers', stored > 0, len(new))
    d = fmt.compare(g, libio.content(f))
    if d:
        raise Violation('content differs after creating objects: %s' % '; '.join(d))


def many_case(ctx, rng, n):
    """more objects than fit in a small counter"""
    g = libio.rand_graph(rng, rng.randint(1, 8), want=[b'ATTR'])
    if rng.random() < 0.3:
        f, stored = ctx.avb.open(), 0
    else:
        f = libio.open_bytes(ctx.avb, fmt.build_file(g, rng.choice(['little', 'big'])), ctx.mode)
        stored = len(fmt.order_of(g))
    used = set()
    live = [f.content, f.content.attributes] if not stored else [f.read_object(k) for k in range(1, stored + 1)]
    used.update(x.instance_id for x in live if x is not None)
    total = 66000 + rng.randint(0, 3000) if ctx.tier == 'quick' else rng.choice([66000, 132000, 300000])
    cheap = [f.create.Attributes, f.create.ParameterList, f.create.TrackRef]
    held = []
    for k in range(total):
        if k < total - 300 and k % 4096 > 3:
            o = cheap[0]()
        else:
            o = cheap[k % 3]()
        num = o.instance_id
        if num in used or 1 <= num <= stored:
            raise Violation('object %d created in a %s file has the number %d, which is taken' % (k, 'loaded' if stored else 'new', num))
        used.add(num)
        if k % 1000 == 0:
            held.append(o)
    uids = set([f.content.uid])
    for k in range(3000):
        o = f.create.Bin()
        if o.uid in uids:
            raise Violation('two new bins have the same uid %r' % o.uid)
        uids.add(o.uid)
    for k, o in enumerate(held):
        f.content.attributes[u'held %d' % k] = o
    want = libio.content(f)
    out = scen.save(ctx, f, rng.choice(['little', 'big']))
    with libio.open_bytes(ctx.avb, out, ctx.mode) as h:
        d = fmt.compare(want, libio.content(h))
    if d:
        raise Violation('after %d objects were created, the file is written as something else: %s' % (total, '; '.join(d)))
    ctx.count('created_in_bulk', total)
    ctx.seen('many', stored > 0)


def isolate_case(ctx, rng, n):
    name = NAMES[n % len(NAMES)]
    f, where = a_file(ctx, rng)
    t0 = datetime.datetime.now()
    f2, where2 = (f, 'same') if rng.random() < 0.5 else a_file(ctx, rng)
    a = getattr(f.create, name)()
    b, given = create(f2, name, rng)
    what = '%s created in a %s and a %s file' % (name, where, where2)
    pa, pb = deep.reachable(a), deep.reachable(b)
    both = [pb[i] for i in pb if i in pa]
    if both:
        raise Violation('%s: both share a %s: %s' % (what, type(both[0]).__name__, repr(both[0])[:80]))
    done = []
    parts = list(pa.values())
    rng.shuffle(parts)
    for p in parts:
        for k in range(rng.randint(1, 3)):
            r = deep.disturb(p, rng)
            if r:
                done.append(r)
                ctx.count('parts_disturbed')
    check_new(ctx, b, name, given, '%s, after the first was changed (%s)' % (what, ', '.join(done[-4:])), t0)
    for x in (f, f2, ctx.avb.open()):
        c = getattr(x.create, name)()
        check_new(ctx, c, name, {}, '%s created after another was changed (%s)' % (name, ', '.join(done[-4:])), t0)
        pc = deep.reachable(c)
        if [1 for i in pc if i in pa or i in pb]:
            raise Violation('%s: shares mutable parts with one created before' % name)
    ctx.seen('isolate', name, where, where2, tuple(sorted(set(done))))


def write_case(ctx, rng, n):
    f, where = a_file(ctx, rng)
    g = libio.content(f)
    makers = dict((x, getattr(f.create, x)) for x in WRITABLE)     # factories kept for later
    names = []
    objs = []
    for k in range(rng.randint(1, 6)):
        name = rng.choice(WRITABLE)
        if rng.random() < 0.5:
            o = makers[name]()
        else:
            o, given = create(f, name, rng)
        if type(o).__name__ != name:
            raise Violation('create.%s made a %s' % (name, type(o).__name__))
        names.append(name)
        objs.append(o)
        ctx.count('created')
    if f.content.attributes is None:
        f.content.attributes = f.create.Attributes()
    for k, o in enumerate(objs):
        if names[k] == 'Composition':
            f.content.add_mob(o)
        f.content.attributes[u'made %d' % k] = o
    objs = o = None
    if rng.random() < 0.5:
        collect()
    want = libio.content(f)
    bo = rng.choice(['little', 'big'])
    try:
        out = scen.save(ctx, f, bo)
    except Exception as x:
        raise Violation('new objects %s in a %s file can not be written: %s: %s' % (names, where, type(x).__name__, x))
    with libio.open_bytes(ctx.avb, out, ctx.mode) as h:
        d = fmt.compare(want, libio.content(h))
    if d:
        raise Violation('new objects %s in a %s file are written as something else: %s' % (names, where, '; '.join(d)))
    d = fmt.compare(want, fmt.parse_file(out).graph)
    if d:
        raise Violation('new objects %s in a %s file are stored as something else: %s' % (names, where, '; '.join(d)))
    ctx.count('written', len(names))
    ctx.seen('write', where, tuple(sorted(names)))


WORKLOADS = {'many': many_case, 'defaults': defaults_case, 'numbers': numbers_case, 'isolate': isolate_case, 'write': write_case}
