# -*- coding: utf-8 -*-
"""C16: mob queries return exactly the mobs that match"""
from . import fmt
from .common import Violation, collect

PROPERTY = 'C16'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring against a model: query results on generated bins are compared with a model of the bin after every edit'
LEVEL_NOTE = 'Sampling of bins, mob graphs (missing, shared, cyclic) and edit histories; every query is compared with the model.'
RULE = ('bins of 0..14 mobs of every type whose source clips, nested in sequences, effects, selectors and attributes, refer to present, missing '
        'and own ids, trees, diamonds and cycles; new, or saved and opened; queries by id, by category, dependants, mob and track of clips, after each of '
        'a series of additions, removals, id changes (replaced or in place), reordering and type changes. Distinct: structure of the mob graph x history.')
ASSUMPTIONS = ['when several mobs of a bin have one id, any of them may be returned', 'the mobs of one cycle have no dependency order among themselves']
PLANS = {'quick': [('pure', 'bin', 1300, 3), ('ext', 'bin', 1000, 3), ('extpure', 'bin', 250, 1), ('pure', 'deep', 40, 1)],
         'thorough': [('pure', 'bin', 30000, 8), ('ext', 'bin', 30000, 8), ('extpure', 'bin', 8000, 4), ('pure', 'deep', 800, 4)]}
REQUIRED = {'finds': 20000, 'finds_none': 3000, 'listings': 8000, 'dependants': 8000, 'cycles': 500, 'clip_mobs': 5000, 'held_clips': 5000, 'bin_edits': 3000}
TYPES = {1: 'CompositionMob', 2: 'MasterMob', 3: 'SourceMob'}


def MobID(b):
    import avb.mobid
    return avb.mobid.MobID(bytes_le=b)


class World(object):
    def __init__(self, ctx, rng, f=None):
        self.ctx, self.rng = ctx, rng
        self.f = f or ctx.avb.open()
        self.mobs = {}          # name -> dict(id, type, usage, clips)
        self.order = []         # names in bin order
        self.n = 0
        self.keep = {}          # name -> object, for those held
        self.pool = [rand_id(rng) for i in range(4)]     # ids without a mob
        self.held = []          # [clip, its id, the list of ids of clips it is counted in]

    def obj(self, name):
        """the library object of a mob of the bin"""
        if name in self.keep:
            return self.keep[name]
        o = self.f.content.items[self.order.index(name)].mob
        if o.name != name:
            raise Violation('item %d of the bin is the mob %r, not %r' % (self.order.index(name), o.name, name))
        if self.rng.random() < 0.5:
            self.keep[name] = o
        return o

    def target(self, own):
        r = self.rng.random()
        ids = [self.mobs[k]['id'] for k in self.mobs]
        if r < 0.12:
            return self.rng.choice(self.pool)
        if r < 0.2:
            return bytes(bytearray(32))
        if r < 0.25 or not ids:
            return own
        return self.rng.choice(ids)

    def clip(self, own, clips, ids=None):
        t = self.target(own) if ids is None else ids
        c = self.f.create.SourceClip(media_kind=self.rng.choice(['picture', 'sound', 'timecode']))
        c.mob_id = MobID(t)
        c.track_id = self.rng.randint(0, 3)
        if self.rng.random() < 0.2:
            c.effect_id = u'EFF2_BLEND'
            c.name = u'clip'
        c.length = self.rng.randint(0, 50)
        clips.append(t)
        if self.rng.random() < 0.3 and len(self.held) < 12:
            self.held.append([c, t, clips])
        return c

    def comp(self, own, clips, depth=0):
        f, rng = self.f, self.rng
        r = rng.random()
        if depth > 3 or r < 0.4:
            return self.clip(own, clips)
        if r < 0.5:
            return f.create.Filler()
        if r < 0.7:
            s = f.create.Sequence(media_kind='picture')
            for i in range(rng.randint(0, 3)):
                s.components.append(self.comp(own, clips, depth + 1))
            return s
        if r < 0.8:
            c = f.create.Filler()
            c.attributes = f.create.Attributes()
            c.attributes['_MAIN'] = rng.randint(0, 9)
            if rng.random() < 0.6:
                c.attributes['_CLIP'] = self.clip(own, clips)
            return c
        g = rng.choice([f.create.TrackEffect, f.create.TrackGroup])(media_kind='picture')
        if g.class_id is None or g.class_id == b'TRKG':
            g = f.create.TrackEffect(media_kind='picture')
        for k, v in (('left_length', 0), ('right_length', 0), ('info_version', 1), ('info_current', 0), ('info_smooth', 0), ('info_color_item', 0),
                     ('info_quality', 0), ('info_is_reversed', 0), ('info_aspect_on', False), ('info_force_software', False), ('info_never_hardware', False), ('keyframes', None), ('trackman', None)):
            setattr(g, k, v)
        g.tracks = [self.track(own, clips, depth + 1) for i in range(rng.randint(0, 2))]
        return g

    def track(self, own, clips, depth=0, comp=None):
        t = self.f.create.Track()
        t.index = self.rng.randint(0, 3)
        t.component = comp or self.comp(own, clips, depth)
        if comp is None and self.rng.random() < 0.1:
            t.filler_proxy = self.comp(own, clips, depth + 2)
        return t

    def mob(self, clips_to=None):
        rng = self.rng
        self.n += 1
        name = 'm%d' % self.n
        t = rng.choice([1, 2, 2, 3, 3, 1])
        m = self.f.create.Composition(name=name, mob_type=TYPES[t])
        m.usage_code = usage(rng)
        b = rand_id(rng)
        m.mob_id = MobID(b)
        clips = []
        if clips_to is None:
            m.tracks = [self.track(b, clips) for i in range(rng.randint(0, 3))]
        else:
            m.tracks = [self.track(b, clips, comp=self.clip(b, clips, x)) for x in clips_to]
        if rng.random() < 0.15:
            m.attributes = self.f.create.Attributes()
            m.attributes['c'] = self.clip(b, clips)
        self.mobs[name] = dict(id=b, type=t, usage=m.usage_code, clips=clips)
        return name, m


def usage(rng):
    return rng.choice([0, 0, 0, rng.randint(0, 16), rng.randint(0, 40), -1, 2**31 - 1, -2**31, 256, 65536])


def rand_id(rng):
    b = bytearray(rng.getrandbits(8) for i in range(32))
    if rng.random() < 0.8:
        b[0:13] = bytearray([6, 10, 0x2b, 0x34, 1, 1, 1, 5, 1, 1, 0x0f, 0x20, 0x13])
    return bytes(b)


# -------------------------------------------------------------------- oracle
def closure(w, name):
    """(names reachable from the mob's clips without itself, {name: direct dependencies})"""
    by = dict((w.mobs[k]['id'], k) for k in w.order)
    by.setdefault(w.mobs[name]['id'], name)
    deps = {}
    todo = [name]
    while todo:
        k = todo.pop()
        if k in deps:
            continue
        deps[k] = set(by[t] for t in w.mobs[k]['clips'] if t in by)
        todo += deps[k]
    return set(deps) - {name}, deps


def reach(deps, a):
    out, todo = set(), list(deps[a])
    while todo:
        k = todo.pop()
        if k not in out:
            out.add(k)
            todo += deps[k]
    return out


def names(ms):
    return [m.name for m in ms]


def check(w, how):
    """the queries in any order: none may depend on another one having been made before"""
    ids = dict((w.mobs[k]['id'], k) for k in w.order)
    parts = [lambda: listings(w, how), lambda: by_id(w, how, ids), lambda: dependants(w, how), lambda: clips(w, how, ids), lambda: held_clips(w, how, ids)]
    w.rng.shuffle(parts)
    for p in parts:
        p()


def listings(w, how):
    ctx, rng, bin = w.ctx, w.rng, w.f.content
    def eq(what, got, want):
        if got != want:
            raise Violation('%s after %s: got %r, the bin has %r' % (what, how, got, want))
    M = w.mobs
    eq('mobs', names(bin.mobs), w.order)
    eq('toplevel()', names(bin.toplevel()), [k for k in w.order if M[k]['type'] == 1 and M[k]['usage'] == 0])
    eq('compositionmobs()', names(bin.compositionmobs()), [k for k in w.order if M[k]['type'] == 1])
    eq('mastermobs()', names(bin.mastermobs()), [k for k in w.order if M[k]['type'] == 2])
    ctx.count('listings', 4)
    for k, m in zip(w.order, bin.mobs):
        if k in w.keep and w.keep[k] is not m:
            raise Violation('mobs gives another object for the mob %s while it is in use' % k)


def by_id(w, how, ids):
    ctx, rng, bin, M = w.ctx, w.rng, w.f.content, w.mobs
    ask = list(ids) + w.pool + [bytes(bytearray(32)), rand_id(rng)] + [M[k]['id'] for k in M if k not in w.order][:3]
    rng.shuffle(ask)
    for b in ask:
        got = bin.find_by_mob_id(MobID(b))
        want = ids.get(b)
        if got is None and want is None:
            ctx.count('finds_none')
            continue
        if got is None or want is None or got.name != want or bytes(got.mob_id.bytes_le) != b:
            raise Violation('find_by_mob_id after %s: got %r, the mob with this id is %r' % (how, got if got is None else got.name, want))
        if want in w.keep and got is not w.keep[want]:
            raise Violation('find_by_mob_id gives another object for the mob %s while it is in use' % want)
        ctx.count('finds')


def dependants(w, how):
    ctx, rng, M = w.ctx, w.rng, w.mobs
    for k in rng.sample(w.order, min(len(w.order), 3)):
        want, deps = closure(w, k)
        it = w.obj(k).dependant_mobs()
        got = []
        for m in it:
            got.append(m.name)
            if len(got) > len(want) + 5:
                raise Violation('dependant_mobs of %s after %s: does not end: %r.., expected %r' % (k, how, got[:20], sorted(want)))
        if sorted(got) != sorted(want):
            raise Violation('dependant_mobs of %s after %s: got %r, reachable are %r (references %r)' % (k, how, got, sorted(want), brief(deps)))
        done = set()
        for x in got:
            for y in deps[x]:
                if y != k and y != x and y not in done and x not in reach(deps, y):
                    raise Violation('dependant_mobs of %s: %s comes before %s, which it depends on: %r (references %r)' % (k, x, y, got, brief(deps)))
            done.add(x)
        ctx.count('dependants')
        if any(x in reach(deps, x) for x in deps):
            ctx.count('cycles')
        ctx.seen('deps', len(want), tuple(sorted(len(deps[x]) for x in deps))[:8], any(x in reach(deps, x) for x in deps))


def clips(w, how, ids):
    M = w.mobs
    for k in w.rng.sample(w.order, min(len(w.order), 3)):
        for t in w.obj(k).tracks:
            c = t.component
            if c is None or c.class_id != b'SCLP':
                continue
            b = bytes(c.mob_id.bytes_le)
            if b not in M[k]['clips']:
                raise Violation('mob %s has a clip of an id it was not given' % k)
            clip(w, how, ids, c, b, 'of ' + k)
            if w.rng.random() < 0.1 and len(w.held) < 12 and not any(x[0] is c for x in w.held):
                w.held.append([c, b, M[k]['clips']])


def held_clips(w, how, ids):
    """clips the program kept, whether or not their mob is still in the bin"""
    for c, b, x in w.held:
        clip(w, how, ids, c, b, 'kept since it was made')
        w.ctx.count('held_clips')


def clip(w, how, ids, c, b, where):
    ctx = w.ctx
    if w.rng.random() < 0.5:
        m = c.mob
        got = c.track
    else:
        got = c.track
        m = c.mob
    if (m.name if m is not None else None) != ids.get(b):
        raise Violation('mob of a source clip %s after %s: got %r, expected %r' % (where, how, m and m.name, ids.get(b)))
    ctx.count('clip_mobs')
    want = None
    for i, x in enumerate(m.tracks if m is not None else ()):
        y = x.component
        if x.index == c.track_id and y is not None and y.media_kind_id == c.media_kind_id:
            want = x
            break
    if got is not want:
        raise Violation('track of a source clip %s (track %d of %s) is %r, expected %r' % (where, c.track_id, ids.get(b), got, want))
    if want is not None:
        ctx.count('clip_tracks')


def brief(deps):
    return dict((k, sorted(deps[k])) for k in deps)


# --------------------------------------------------------------------- edits
def edit(w):
    rng, bin = w.rng, w.f.content
    r = rng.choice(['add', 'add', 'insert', 'remove', 'remove', 'newid', 'part', 'swap', 'reverse', 'type', 'usage', 'clip', 'replace', 'other', 'again', 'collect', 'items', 'retarget', 'retarget'])
    if r == 'add':
        k, m = w.mob()
        bin.add_mob(m)
        w.order.append(k)
        w.keep[k] = m
        return r
    if r == 'insert':
        k, m = w.mob()
        it = w.f.create.BinItem()
        it.mob = m
        i = rng.randint(0, len(w.order))
        bin.items.insert(i, it)
        w.order.insert(i, k)
        w.keep[k] = m
        return r
    if r == 'collect':
        w.keep = dict((k, w.keep[k]) for k in w.keep if w.mobs[k].get('pinned') or rng.random() < 0.3)
        collect()
        return r
    if r == 'retarget':
        if not w.held:
            return 'nothing'
        h = rng.choice(w.held)
        b = w.target(h[1])
        if b == h[1]:
            return 'nothing'
        h[0].mob_id = MobID(b)
        h[2].remove(h[1])
        h[2].append(b)
        h[1] = b
        return r
    if not w.order:
        return 'nothing'
    k = rng.choice(w.order)
    i = w.order.index(k)
    m = w.obj(k)
    if r == 'remove':
        del bin.items[i]
        w.order.remove(k)
        w.keep[k] = m
    elif r == 'again':
        gone = [x for x in w.keep if x not in w.order]
        if gone:
            x = rng.choice(gone)
            if w.mobs[x]['id'] in [w.mobs[y]['id'] for y in w.order]:
                return 'nothing'
            bin.add_mob(w.keep[x])
            w.order.append(x)
    elif r == 'newid':
        b = rand_id(rng)
        m.mob_id = MobID(b)
        w.mobs[k]['id'] = b
    elif r == 'part':
        b = bytearray(w.mobs[k]['id'])
        b[16] ^= rng.randint(1, 255)
        m.mob_id.bytes_le[16] = b[16]
        w.mobs[k]['id'] = bytes(b)
        w.mobs[k]['pinned'] = True      # in place: kept while the object is (C07)
        w.keep[k] = m
    elif r == 'swap' and len(w.order) > 1:
        a = rng.choice([x for x in w.order if x != k])
        n = w.obj(a)
        x, y = w.mobs[k]['id'], w.mobs[a]['id']
        m.mob_id, n.mob_id = MobID(y), MobID(x)
        w.mobs[k]['id'], w.mobs[a]['id'] = y, x
    elif r == 'reverse':
        bin.items.reverse()
        w.order.reverse()
    elif r == 'type':
        t = rng.choice([1, 2, 3])
        m.mob_type_id = t
        w.mobs[k]['type'] = t
    elif r == 'usage':
        m.usage_code = w.mobs[k]['usage'] = usage(rng)
    elif r == 'clip':
        clips = w.mobs[k]['clips']
        m.tracks = list(m.tracks) + [w.track(w.mobs[k]['id'], clips, 3)]
    elif r == 'replace':
        x, n = w.mob()
        bin.items[i].mob = n
        w.order[i] = x
        w.keep[k] = m
        w.keep[x] = n
    elif r == 'other' and len(w.order) > 1:
        a = rng.randrange(len(w.order))
        b = rng.randrange(len(w.order))
        it = bin.items
        it[a], it[b] = it[b], it[a]
        w.order[a], w.order[b] = w.order[b], w.order[a]
    elif r == 'items':
        bin.items = list(bin.items)
    return r


def bin_case(ctx, rng, n):
    w = World(ctx, rng)
    f = w.f
    f.content = f.create.Bin()
    for i in range(rng.choice([0, 1, 2, 4, 7, 12])):
        k, m = w.mob()
        w.keep[k] = m
        if rng.random() < 0.93:
            f.content.add_mob(m)
            w.order.append(k)
    how = 'new'
    if rng.random() < 0.6:
        p = ctx.path('b.avb')
        f.write(p, rng.choice(['little', 'little', 'big']))
        w.f = ctx.avb.open(p) if ctx.mode == 'pure' else ctx.avb.open(p, use_ext=ctx.mode != 'extpure')
        w.keep = {}
        w.held = []
        w.mobs = dict((k, w.mobs[k]) for k in w.order)
        how = 'loaded'
    check(w, how)
    trail = [how]
    for s in range(rng.randint(0, 6)):
        e = edit(w)
        trail.append(e)
        ctx.count('bin_edits')
        check(w, ', '.join(trail))
    ctx.seen(how, tuple(trail[:4]), len(w.order))
    if how == 'loaded':
        w.f.close()


def deep_case(ctx, rng, n):
    """long chains, rings, wide and layered graphs"""
    w = World(ctx, rng)
    f = w.f
    f.content = f.create.Bin()
    shape = ['chain', 'ring', 'wide', 'layers', 'random'][n % 5]
    N = rng.choice([20, 60, 120]) if n % 10 else 700
    if n % 10 == 0:
        shape = rng.choice(['wide', 'random', 'random', 'layers'])
    ids = []
    ks = []
    for i in range(N):
        k, m = w.mob([])
        w.keep[k] = m
        f.content.add_mob(m)
        w.order.append(k)
        ids.append(w.mobs[k]['id'])
        ks.append(k)
    for i, k in enumerate(ks):
        if shape == 'chain':
            to = [i + 1] if i + 1 < N else []
        elif shape == 'ring':
            to = [(i + 1) % N]
        elif shape == 'wide':
            to = list(range(1, N)) if i == 0 else []
        elif shape == 'layers':
            to = [x for x in range((i // 5 + 1) * 5, (i // 5 + 2) * 5) if x < N]
        else:
            to = [rng.randrange(N) for x in range(rng.randint(0, 3))]
        rng.shuffle(to)
        c = w.mobs[k]['clips']
        w.keep[k].tracks = [w.track(ids[i], c, comp=w.clip(ids[i], c, ids[x])) for x in to]
    if rng.random() < 0.5:
        p = ctx.path('b.avb')
        f.write(p)
        w.f = ctx.avb.open(p)
        w.keep = {}
        w.held = []
    check(w, shape)
    k = ks[0]
    want, deps = closure(w, k)
    got = names(w.obj(k).dependant_mobs())
    if sorted(got) != sorted(want):
        raise Violation('dependant_mobs of a %s of %d mobs gives %d mobs, expected %d' % (shape, N, len(got), len(want)))
    ctx.seen('deep', shape, N)


WORKLOADS = {'bin': bin_case, 'deep': deep_case}
