# -*- coding: utf-8 -*-
"""C20: named views agree with the stored codes"""
import inspect
import json
import os
import re
import uuid

from . import edit, fmt, libio, samples, scen
from .common import Violation, collect

PROPERTY = 'C20'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring against code tables: every named view of every object is compared with the table entry of the code decoded independently from the file, across edits by name and by code, saves and collections'
LEVEL_NOTE = 'All defined codes and all one-byte codes are visited; wider code ranges and object contexts are sampled.'
RULE = ('view: graphs whose coded fields hold defined codes, neighbours of them and any value of their width, loaded (both byte orders, both '
        'readers) or built; all views of all objects compared with the tables, then edits by name and by code, collections, a save and a '
        'reload, compared again. codes: every defined code and every code of -300..300 (mob types 0..255) for each coded field, every name '
        'for each class and constructor. names: all known parameter uuids and near misses. sample: every object of the sample files. '
        'Distinct: class x view x code.')
ASSUMPTIONS = ['for a code the format does not define a view may give any text that is not one of the known names, or refuse',
               'the table of effect parameter names is the one of the pinned commit (there is no independent source for it)']
PLANS = {'quick': [('pure', 'view', 500, 3), ('ext', 'view', 400, 3), ('extpure', 'view', 100, 1), ('pure', 'codes', 24, 2), ('ext', 'codes', 12, 2),
                   ('pure', 'names', 8, 1), ('ext', 'names', 4, 1), ('pure', 'sample', 14, 2), ('ext', 'sample', 14, 2)],
         'thorough': [('pure', 'view', 16000, 8), ('ext', 'view', 16000, 8), ('extpure', 'view', 4000, 4), ('pure', 'codes', 600, 4), ('ext', 'codes', 600, 4),
                      ('pure', 'names', 60, 2), ('ext', 'names', 60, 2), ('pure', 'sample', 28, 4), ('ext', 'sample', 28, 4)]}
REQUIRED = {'views': 40000, 'texts': 8000, 'by_name': 1500, 'refused_names': 400, 'by_code': 500, 'saved': 200, 'unknown_codes': 3000, 'names': 4000, 'flags': 1500}

MEDIA = {0: None, 1: 'picture', 2: 'sound', 3: 'timecode', 4: 'edgecode', 5: 'attribute', 6: 'effectdata', 7: 'DescriptiveMetadata', 16: 'DataEssenceTrack'}
MOBS = {1: 'CompositionMob', 2: 'MasterMob', 3: 'SourceMob'}
USAGE = {0: None, 1: 'precompute', 2: 'subclip', 3: 'effect', 4: 'group', 5: 'groupoofter', 6: 'motion', 7: 'mastermob', 9: 'precompute_file'}
INTERP = {2: 'ConstantInterp', 3: 'LinearInterp', 5: 'BezierInterpolator', 6: 'CubicInterpolator'}
VALUES = {1: 'int', 2: 'double', 4: 'reference'}
POINT = {5: 'PP_IN_TANGENT_POS_U', 6: 'PP_IN_TANGENT_VAL_U', 7: 'PP_OUT_TANGENT_POS_U', 8: 'PP_OUT_TANGENT_VAL_U', 9: 'PP_TANGENT_MODE_U', 14: 'PP_BASE_FRAME_U'}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'parameter_names.json')) as _f:
    PARAMS = json.load(_f)
BITS = dict((n, 1 << b) for n, b, k in fmt.TRACK_BITS)
WRONG = ['Picture', 'picture ', '', 'unknown8', 'video', 'SOUND', 'dataessencetrack', 'effect', 'None', 'unknown0', u'\u00e9', b'picture!', 'edge', 'time']


class Monitor(object):
    def __init__(self, ctx):
        self.ctx = ctx

    def view(self, o, attr, table, code, what):
        """a view by table"""
        self.ctx.count('views')
        self.ctx.seen(what, attr, code)
        known = set(table.values())
        if code in table:
            got = getattr(o, attr)
            if got != table[code] or type(got) is not type(table[code]) and not isinstance(got, str):
                raise Violation('%s: %s is %r for the code %r, expected %r' % (what, attr, got, code, table[code]))
            return
        self.ctx.count('unknown_codes')
        try:
            got = getattr(o, attr)
        except ValueError:
            return
        if got in known or not (got is None or isinstance(got, str)):
            raise Violation('%s: %s is %r for the code %r, which is not defined' % (what, attr, got, code))

    def object(self, o, m, targets=None):
        """all views of the object o, the stored values are m (model); targets: model of referenced objects"""
        f, what = m.f, fmt.KINDS[m.cls][0]
        ctx = self.ctx
        if 'media_kind_id' in libio.schema(m.cls):
            self.view(o, 'media_kind', MEDIA, f['media_kind_id'], what)
        elif m.cls not in (b'ATTR', b'PRLS', b'TMCS') and o.media_kind is not None:
            raise Violation('%s: media_kind is %r although it has none' % (what, o.media_kind))
        if m.cls == b'CMPO':
            self.view(o, 'mob_type', MOBS, f['mob_type_id'], what)
            self.view(o, 'usage', USAGE, f['usage_code'], what)
        if m.cls == b'PRIT':
            self.view(o, 'value_type_name', VALUES, f['value_type'], what)
            self.param(o, f['uuid'])
        if m.cls == b'PRCL':
            self.view(o, 'interp', INTERP, f['interp_kind'], what)
            self.view(o, 'value_type_name', VALUES, f['value_type'], what)
            ps = o.control_points
            if len(ps) != len(f['control_points']):
                raise Violation('%s has %d points, expected %d' % (what, len(ps), len(f['control_points'])))
            for p, q in zip(ps, f['control_points']):
                self.point(p, q)
        if 'tracks' in libio.schema(m.cls):
            if len(o.tracks) != len(f['tracks']):
                raise Violation('%s has %d tracks, expected %d' % (what, len(o.tracks), len(f['tracks'])))
            for t, d in zip(o.tracks, f['tracks']):
                want = sum(BITS[k] for k in d if k in BITS)
                ctx.count('flags')
                if t.flags != want:
                    raise Violation('%s: the flags of a track with %s are %#x, expected %#x' % (what, sorted(d), t.flags, want))
                if targets is not None and d.get('component') is not None:
                    c = targets[d['component'].id]
                    if 'media_kind_id' in c.f:
                        self.view(t, 'media_kind', MEDIA, c.f['media_kind_id'], 'Track')
                elif 'component' not in d and t.media_kind is not None:
                    raise Violation('a track without a component is of kind %r' % t.media_kind)
        self.gets(o, m, what)
        self.text(o, m, what)

    def param(self, o, u):
        self.ctx.count('names')
        got = o.parameter_name
        want = PARAMS.get(str(u))
        if want is None:
            if got in KNOWN_NAMES:
                raise Violation('the unknown parameter %s is named %r' % (u, got))
        elif got != want:
            raise Violation('the parameter %s is named %r, expected %r' % (u, got, want))

    def point(self, p, q):
        names = []
        for x, y in zip(p.pp, q['pp']):
            if y['code'] in POINT:
                self.view(x, 'name', POINT, y['code'], 'ParamControlPointProperty')
                names.append(POINT[y['code']])
            elif x.name is not None and x.name in POINT.values():
                raise Violation('the point property %d is named %r' % (y['code'], x.name))
            else:
                self.ctx.count('unknown_codes')
            self.view(x, 'type_name', VALUES, y['type'], 'ParamControlPointProperty')
        props = p.point_properties
        if set(props) != set(names):
            raise Violation('the properties of a control point are %r, expected %r' % (sorted(props), sorted(names)))
        if len(set(names)) != len(names):
            return          # several of one kind: unclear which counts
        for y in q['pp']:
            if y['code'] in POINT and props[POINT[y['code']]] != y['value'] and y['value'] == y['value']:
                raise Violation('the point property %s is %r, expected %r' % (POINT[y['code']], props[POINT[y['code']]], y['value']))
        val = dict((y['code'], y['value']) for y in q['pp'])
        want = [(float(val.get(5, 0)), float(val.get(6, 0))), (float(val.get(7, 0)), float(val.get(8, 0)))]
        got = [tuple(t) for t in p.tangents]
        if repr(got) != repr(want):
            raise Violation('the tangents of a control point are %r, expected %r' % (got, want))
        if repr(p.base_frame) != repr(val.get(14, 0)):
            raise Violation('the base frame of a control point is %r, expected %r' % (p.base_frame, val.get(14, 0)))
        self.ctx.count('views', 2)

    def gets(self, o, m, what):
        if m.cls in (b'ATTR', b'PRLS', b'TMCS'):
            return
        none = object()
        for k in libio.schema(m.cls):
            a = o.get(k, none)
            b = getattr(o, k, none)
            if (a is none) != (b is none) or (a is not b and not (a == b or a != a)):
                if what == 'Sequence' and k == 'length':
                    continue
                raise Violation('%s: get(%r) gives %r, the attribute is %r' % (what, k, a, b))
        if o.get('no such name', none) is not none:
            raise Violation('%s: get gives something for a name that does not exist' % what)
        self.ctx.count('gets')

    def text(self, o, m, what):
        """the object's text form"""
        f = m.f
        try:
            s, s2 = repr(o), str(o)
        except ValueError:
            if m.cls == b'CMPO' and f['mob_type_id'] not in MOBS:
                return
            raise
        self.ctx.count('texts')
        if plain(s) != plain(s2) or plain(repr(o)) != plain(s):
            raise Violation('%s: its text form changes: %s, %s' % (what, s[:300], s2[:300]))
        if m.cls in (b'ATTR', b'PRLS', b'TMCS'):
            return
        parts = [what, m.cls.decode('latin-1')]
        for k in ('name', 'effect_id'):
            if k in libio.schema(m.cls) and f.get(k) and 'media_kind_id' in libio.schema(m.cls):
                parts.append(f[k])
        if f.get('media_kind_id'):
            parts.append(MEDIA.get(f['media_kind_id']) or '')
        if m.cls == b'CMPO':
            parts.append(MOBS.get(f['mob_type_id'], ''))
        for k in ('length', 'track_id', 'start_time'):
            if k in libio.schema(m.cls) and k in f:
                parts.append(str(f[k]))
        for p in parts:
            if p and p not in s:
                raise Violation('%s: its text form %s does not tell %r' % (what, s[:300], p))


KNOWN_NAMES = set(PARAMS.values())


def plain(s):
    return re.sub(r'0x[0-9a-fA-F]+', '0x', s)


def near(rng, table, lo, hi):
    w = rng.random()
    if w < 0.6:
        return rng.choice(list(table))
    if w < 0.85:
        return max(lo, min(hi, rng.choice(list(table)) + rng.choice([-1, 1, 8, 16, 256, -256])))
    return rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(max(lo, -30), min(hi, 300))])


def recode(g, rng):
    for i in g.objs:
        f = g.objs[i].f
        if 'media_kind_id' in f:
            f['media_kind_id'] = near(rng, MEDIA, -32768, 32767)
        if 'mob_type_id' in f:
            f['mob_type_id'] = near(rng, MOBS, 0, 255)
            f['usage_code'] = near(rng, USAGE, -2 ** 31, 2 ** 31 - 1)
        if g.objs[i].cls == b'PRCL':
            f['interp_kind'] = near(rng, INTERP, -2 ** 31, 2 ** 31 - 1)
            for p in f['control_points']:
                for x in p['pp']:
                    x['code'] = near(rng, POINT, -32768, 32767)
        if g.objs[i].cls == b'PRIT':
            f['uuid'] = rand_uuid(rng)


def rand_uuid(rng):
    u = uuid.UUID(rng.choice(sorted(PARAMS)))
    w = rng.random()
    if w < 0.6:
        return u
    if w < 0.8:
        return uuid.UUID(int=u.int ^ (1 << rng.randrange(128)))
    if w < 0.9:
        return uuid.UUID(bytes=u.bytes_le)
    return uuid.UUID(int=rng.getrandbits(128))


WANT = [b'CMPO', b'PRCL', b'PRIT', b'SEQU', b'SCLP', b'FILL', b'TKFX', b'TNFX', b'SLCT', b'ECCP', b'TCCP', b'PRCL', b'CMPO']


def same_names(mon, o, before, what):
    for k in before:
        try:
            got = getattr(o, k)
        except ValueError:
            got = ValueError
        if got != before[k]:
            raise Violation('%s: after a refused name %s is %r, it was %r' % (what, k, got, before[k]))


def edit_one(ctx, rng, mon, o, m):
    f, what = m.f, fmt.KINDS[m.cls][0]
    ways = []
    if 'media_kind_id' in f:
        ways += ['kind', 'kind', 'kind code', 'wrong kind']
    if m.cls == b'CMPO':
        ways += ['type', 'usage']
    if m.cls == b'PRCL':
        ways += ['interp', 'interp', 'pp', 'pp']
    if m.cls == b'PRIT':
        ways += ['uuid', 'uuid', 'vt']
    if not ways:
        return
    w = rng.choice(ways)
    if w == 'kind':
        c = rng.choice(sorted(MEDIA))
        o.media_kind = MEDIA[c]
        f['media_kind_id'] = c
        ctx.count('by_name')
        if o.media_kind != MEDIA[c] or o.media_kind_id != c:
            raise Violation('%s: media_kind set to %r reads %r, stored as %r' % (what, MEDIA[c], o.media_kind, o.media_kind_id))
    elif w == 'kind code':
        f['media_kind_id'] = o.media_kind_id = near(rng, MEDIA, -32768, 32767)
    elif w == 'wrong kind':
        refuse(ctx, rng, o, what, f['media_kind_id'])
    elif w == 'type':
        f['mob_type_id'] = o.mob_type_id = near(rng, MOBS, 0, 255)
    elif w == 'usage':
        f['usage_code'] = o.usage_code = near(rng, USAGE, -2 ** 31, 2 ** 31 - 1)
    elif w == 'interp':
        f['interp_kind'] = o.interp_kind = near(rng, INTERP, -2 ** 31, 2 ** 31 - 1)
    elif w == 'pp':
        pts = o.control_points
        for p, q in zip(pts, f['control_points']):
            for x, y in zip(p.pp, q['pp']):
                y['code'] = x.code = near(rng, POINT, -32768, 32767)
        o.control_points = pts
    elif w == 'uuid':
        f['uuid'] = o.uuid = rand_uuid(rng)
    elif w == 'vt':
        f['value_type'] = t = rng.choice([1, 2])
        v = rng.randint(-2 ** 31, 2 ** 31 - 1) if t == 1 else rng.choice([0.5, -1e300, 3.0])
        o.value_type = t
        f['value'] = o.value = v
    if w not in ('kind', 'wrong kind'):
        ctx.count('by_code')


def refuse(ctx, rng, o, what, code):
    bad = rng.choice(WRONG + [5, 1.5, b'picture'])
    try:
        o.media_kind = bad
    except ValueError:
        ctx.count('refused_names')
    else:
        if o.media_kind != bad:
            raise Violation('%s: media_kind was set to %r without complaint, but reads %r' % (what, bad, o.media_kind))
        raise Violation('%s: the unknown media kind %r was accepted' % (what, bad))
    if o.media_kind_id != code:
        raise Violation('%s: refusing the media kind %r changed the stored code from %r to %r' % (what, bad, code, o.media_kind_id))


def view_case(ctx, rng, n):
    mon = Monitor(ctx)
    g = libio.rand_graph(rng, rng.randint(2, 16), want=rng.sample(WANT, rng.randint(1, 5)), maxlist=rng.choice([1, 3, 5]), root_cls=b'ABIN')
    recode(g, rng)
    if rng.random() < 0.75:
        data = fmt.build_file(g, rng.choice(['little', 'little', 'big']), libio.shuffled_order(g, rng) if rng.random() < 0.5 else None)
        f = libio.open_bytes(ctx.avb, data, ctx.mode)
    else:
        f = ctx.avb.open()
        f.content = libio.Builder(f).graph(g)
    ed = edit.Editor(ctx, f, g, rng)
    ids = fmt.order_of(g)
    for rnd in range(rng.choice([1, 1, 2])):
        for i in ids:
            mon.object(ed.get(i), g.objs[i], g.objs)
        touched = []
        for k in range(rng.randint(0, 10)):
            i = rng.choice(ids)
            o = ed.get(i)
            edit_one(ctx, rng, mon, o, g.objs[i])
            touched.append(i)
            ids = fmt.order_of(g)
            if rng.random() < 0.3:
                o = None
                collect()
        for i in touched:
            if i not in ids:
                continue
            mon.object(ed.get(i), g.objs[i], g.objs)
    data = scen.save(ctx, f, rng.choice(['little', 'big']))
    d = fmt.compare(g, fmt.parse_file(data).graph)
    if d:
        raise Violation('saved: %s' % '; '.join(d))
    ctx.count('saved')
    h = libio.open_bytes(ctx.avb, data, ctx.mode)
    g2 = fmt.parse_file(data).graph
    for i in g2.objs:
        mon.object(h.read_object(i), g2.objs[i], g2.objs)


def codes_case(ctx, rng, n):
    """every code of each coded field, one object at a time"""
    mon = Monitor(ctx)
    f = ctx.avb.open()
    comps = sorted(fmt.KINDS[c][0] for c in fmt.KINDS if 'media_kind_id' in libio.schema(c))
    name = comps[n % len(comps)]
    cls = [c for c in fmt.KINDS if fmt.KINDS[c][0] == name][0]
    o = getattr(f.create, name)()
    cs = list(range(-300, 301)) + [32767, -32768]
    rng.shuffle(cs)
    for c in cs:
        o.media_kind_id = c
        mon.view(o, 'media_kind', MEDIA, c, name)
        if rng.random() < 0.2:
            k = rng.choice(sorted(MEDIA))
            o.media_kind = MEDIA[k]
            ctx.count('by_name')
            mon.view(o, 'media_kind', MEDIA, o.media_kind_id, name)
            if o.media_kind_id != k:
                raise Violation('%s: media_kind %r is stored as %r, expected %r' % (name, MEDIA[k], o.media_kind_id, k))
            repr(o) if cls != b'CMPO' or o.mob_type_id in MOBS else None
        if rng.random() < 0.1:
            refuse(ctx, rng, o, name, o.media_kind_id)
    # constructors that take names
    params = inspect.signature(type(o).__init__).parameters
    if 'media_kind' in params:
        for k in MEDIA:
            x = getattr(f.create, name)(media_kind=MEDIA[k])
            ctx.count('by_name')
            if x.media_kind != MEDIA[k] or x.media_kind_id != k:
                raise Violation('create.%s(media_kind=%r) gives %r, stored as %r' % (name, MEDIA[k], x.media_kind, x.media_kind_id))
        for w in rng.sample(WRONG, 4):
            try:
                x = getattr(f.create, name)(media_kind=w)
            except ValueError:
                ctx.count('refused_names')
            else:
                raise Violation('create.%s(media_kind=%r) gives %r' % (name, w, x.media_kind))
    m = f.create.Composition()
    for c in range(256):
        m.mob_type_id = c
        mon.view(m, 'mob_type', MOBS, c, 'Composition')
    m.mob_type_id = 2
    for c in list(range(-300, 301)) + [2 ** 31 - 1, -2 ** 31]:
        m.usage_code = c
        mon.view(m, 'usage', USAGE, c, 'Composition')
    for k in MOBS:
        x = f.create.Composition(mob_type=MOBS[k])
        ctx.count('by_name')
        if x.mob_type != MOBS[k] or x.mob_type_id != k:
            raise Violation('create.Composition(mob_type=%r) is a %r, stored as %r' % (MOBS[k], x.mob_type, x.mob_type_id))
    for w in ('Mob', 'sourcemob', '', None, 'MasterMob ', 2):
        try:
            x = f.create.Composition(mob_type=w)
        except ValueError:
            ctx.count('refused_names')
        else:
            raise Violation('create.Composition(mob_type=%r) gives a %r' % (w, x.mob_type_id))
    p = f.create.ParamClip()
    q = f.create.ParamControlPointProperty()
    t = f.create.ParameterItem()
    for c in list(range(-300, 301)) + [2 ** 31 - 1, -2 ** 31]:
        p.interp_kind = c
        mon.view(p, 'interp', INTERP, c, 'ParamClip')
        for x, a in ((p, 'value_type'), (t, 'value_type'), (q, 'type')):
            setattr(x, a, c)
            mon.view(x, 'value_type_name' if x is not q else 'type_name', VALUES, c, type(x).__name__)
        q.code = c
        got = q.name
        if c in POINT and got != POINT[c] or c not in POINT and got in POINT.values():
            raise Violation('the point property %d is named %r' % (c, got))
        ctx.count('views')
    # flags of tracks, every subset
    for bits in rng.sample(range(1 << len(fmt.TRACK_BITS)), 150):
        tr = f.create.Track()
        want = 0
        names = [x for k, x in enumerate(fmt.TRACK_BITS) if bits >> k & 1]
        rng.shuffle(names)
        for a, b, kind in names:
            setattr(tr, a, o if kind == 'ref' else (True if kind == 'bool' else rng.choice([0, 1, 300])))
            want |= 1 << b
        ctx.count('flags')
        if tr.flags != want:
            raise Violation('the flags of a track with %s are %#x, expected %#x' % ([x[0] for x in names], tr.flags, want))


def names_case(ctx, rng, n):
    mon = Monitor(ctx)
    f = ctx.avb.open()
    keys = sorted(PARAMS)
    rng.shuffle(keys)
    a = f.create.Attributes()
    f.content.attributes = a
    want = {}
    for k, u in enumerate(keys):
        o = f.create.ParameterItem()
        o.uuid = uuid.UUID(u)
        o.value_type, o.value, o.name, o.enable, o.control_track = 1, k, '', True, None
        mon.param(o, o.uuid)
        bad = uuid.UUID(int=o.uuid.int ^ (1 << rng.randrange(128)))
        o.uuid = bad
        mon.param(o, bad)
        o.uuid = uuid.UUID(u)
        a['p%d' % k] = o
        want['p%d' % k] = o.uuid
    data = scen.save(ctx, f, rng.choice(['little', 'big']))
    ctx.count('saved')
    h = libio.open_bytes(ctx.avb, data, ctx.mode)
    for k, o in h.content.attributes.items():
        if k in want:
            mon.param(o, want.pop(k))
            mon.view(o, 'value_type_name', VALUES, 1, 'ParameterItem')
    if want:
        raise Violation('%d parameters are missing after a save' % len(want))
    ctx.seen('names', n)


def sample_case(ctx, rng, n):
    mon = Monitor(ctx)
    fs = samples.files()
    p = fs[n % len(fs)]
    pf = fmt.parse_file(samples.data(p), False)
    f = ctx.avb.open(p, use_ext=ctx.mode != 'extpure')
    models = {}

    class Models(dict):
        def __missing__(self, i):
            cls, d, at = pf.chunks[i - 1]
            return fmt.decode(cls, d, pf.bo)
    models = Models()
    nums = list(range(1, len(pf.chunks) + 1))
    if len(nums) > 3000 and ctx.tier == 'quick':
        nums = rng.sample(nums, 1500)
    for i in nums:
        if pf.chunks[i - 1][0] not in fmt.KINDS:
            continue
        mon.object(f.read_object(i), models[i], models)
    ctx.count('sample_files')


WORKLOADS = {'view': view_case, 'codes': codes_case, 'names': names_case, 'sample': sample_case}
