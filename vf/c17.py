# -*- coding: utf-8 -*-
"""C17: sequence positions, timing and lookups are consistent"""
from . import fmt
from .common import Violation, collect

PROPERTY = 'C17'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: positions, lengths and lookups observed at every time of generated sequences, after every edit, against interval arithmetic'
LEVEL_NOTE = 'Sampling of sequences and edits; within one sequence every edit time from before the start to after the end is looked up.'
RULE = ('sequences of clips, fillers, effects, nested sequences and transitions (overlapping up to whole neighbours), zero lengths included, new or loaded; '
        'positions, total length and the component at every time (large lengths: at every boundary) are compared with intervals computed from the '
        'lengths, again after each of a series of edits; some sequences have thousands of components. Distinct: pattern of component kinds and lengths x edits.')
ASSUMPTIONS = ['transitions stand between two clips that are at least as long as the transitions on them together (others are not valid sequences: only their positions and length are compared); inside a '
               'transition the transition is the component', 'times outside give the first or last component; zero length components contain no time']
PLANS = {'quick': [('pure', 'timing', 1200, 3), ('ext', 'timing', 900, 3), ('extpure', 'timing', 200, 1)],
         'thorough': [('pure', 'timing', 40000, 8), ('ext', 'timing', 40000, 8), ('extpure', 'timing', 8000, 4)]}
REQUIRED = {'lookups': 150000, 'positions': 20000, 'in_transition': 8000, 'sequence_edits': 3000, 'outside': 8000, 'loose': 300, 'long_lookups': 500}


class W(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.f = ctx.avb.open()
        self.big = rng.random() < 0.2
        self.long = 0
        self.loose = rng.random() < 0.2      # transitions anywhere, of any length: no lookups

    def length(self):
        r = self.rng
        if r.random() < 0.15:
            return 0
        if self.big:
            return r.choice([r.randint(1, 2**31 - 1), 1, r.randint(1, 2**20)])
        return r.randint(1, 12)

    def clip(self, n, depth=0):
        f, rng = self.f, self.rng
        r = rng.random()
        if r < 0.35:
            c = f.create.SourceClip(media_kind='picture')
        elif r < 0.65:
            c = f.create.Filler(media_kind='picture')
        elif r < 0.8:
            c = f.create.Timecode(media_kind='timecode')
        elif r < 0.9 and depth < 2 and n < 2**28:
            # a nested sequence of that length
            c = f.create.Sequence(media_kind='picture')
            a = rng.randint(0, n)
            for x in (a, n - a):
                c.components.append(self.clip(x, depth + 1))
            return c
        else:
            c = f.create.Selector(media_kind='picture')
            c.is_ganged = False
            c.selected = 0
            t = f.create.Track()
            t.index = 1
            t.component = f.create.Filler()
            c.tracks = [t]
        c.length = n
        return c

    def trans(self, n):
        t = self.f.create.TransitionEffect(media_kind='picture')
        t.length = n
        for k, v in (('cutpoint', 0), ('left_length', 0), ('right_length', 0), ('info_version', 1), ('info_current', 0), ('info_smooth', 0), ('info_color_item', 0),
                     ('info_quality', 0), ('info_is_reversed', 0), ('info_aspect_on', False), ('info_force_software', False), ('info_never_hardware', False),
                     ('keyframes', None), ('trackman', None)):
            setattr(t, k, v)
        return t


def valid(pat):
    """transitions only between clips that they, together, do not exceed"""
    for i, (k, n) in enumerate(pat):
        if k == 'T':
            if i == 0 or i == len(pat) - 1 or pat[i - 1][0] == 'T' or pat[i + 1][0] == 'T':
                return False
        else:
            t = sum(pat[j][1] for j in (i - 1, i + 1) if 0 <= j < len(pat) and pat[j][0] == 'T')
            if t > n:
                return False
    return True


def intervals(pat):
    out = []
    at = 0
    for k, n in pat:
        if k == 'T':
            at -= n
            out.append((at, at + n))
        else:
            out.append((at, at + n))
            at += n
    return out, at


def expected(pat, iv, t):
    """index of the component that contains t; None when there is none"""
    hit = [i for i, (a, b) in enumerate(iv) if a <= t < b]
    tr = [i for i in hit if pat[i][0] == 'T']
    if tr:
        return tr[0]
    if hit:
        return hit[0]
    full = [i for i, (a, b) in enumerate(iv) if a < b]
    if not full:
        return None
    return full[0] if t < iv[full[0]][0] else full[-1]


def check(w, s, pat, comps, how):
    ctx, rng = w.ctx, w.rng
    iv, total = intervals(pat)
    got = list(s.positions())
    if [(i, p) for i, p, c in got] != [(i, iv[i][0]) for i in range(len(pat))]:
        raise Violation('%s: positions of %r are %r, expected %r' % (how, pat, [(i, p) for i, p, c in got], [x[0] for x in iv]))
    ctx.count('positions', len(pat))
    lib = list(s.components)
    for (i, p, c), x in zip(got, lib):
        if c is not x:
            raise Violation('%s: positions() gives another component than components at index %d' % (how, i))
    if comps is not None and any(a is not b for a, b in zip(lib, comps)):
        raise Violation('%s: components of the sequence are other objects than those put there' % how)
    if [(('T' if c.class_id == b'TNFX' else 'C'), c.length) for c in lib] != pat:
        raise Violation('%s: the sequence holds %r, expected %r' % (how, [(c.class_id, c.length) for c in lib], pat))
    if s.length != total:
        raise Violation('%s: the length of %r is %r, expected %d' % (how, pat, s.length, total))
    if not pat:
        return
    if not valid(pat):
        ctx.count('loose')
        return
    if w.big:
        times = sorted(set(x + d for a, b in iv for x in (a, b) for d in (-1, 0, 1)) | {-2**31, 2**33, total // 2})
    else:
        times = list(range(-3, total + 4))
        if rng.random() < 0.3:
            times += [t + 0.5 for t in times]
    rng.shuffle(times)
    if w.long:
        times = times[:40] + [total - 1, total, iv[len(iv) // 2][0]]
        ctx.count('long_lookups', len(times))
    for t in times:
        want = expected(pat, iv, t)
        i, p = s.nearest_index_at_time(t)
        c, q = s.nearest_component_at_time(t)
        if want is None:
            if not 0 <= i < len(pat) or p != iv[i][0]:
                raise Violation('%s: the lookup in %r of time %s gives index %r at %r' % (how, pat, t, i, p))
            continue
        if (i, p, q) != (want, iv[want][0], iv[want][0]) or c is not lib[want]:
            raise Violation('%s: time %s of %r is in component %d at %d; nearest_index_at_time gives %r at %r, nearest_component_at_time %s at %r' % (
                how, t, pat, want, iv[want][0], i, p, [j for j in range(len(lib)) if lib[j] is c], q))
        ctx.count('lookups')
        if pat[want][0] == 'T':
            ctx.count('in_transition')
        if not 0 <= t < total:
            ctx.count('outside')


def make(w, size):
    """a valid pattern with its components"""
    rng = w.rng
    pat = []
    if w.loose:
        return [(rng.choice('CCT'), w.length()) for k in range(size)]
    while len(pat) < size:
        pat.append(('C', w.length()))
        if rng.random() < 0.5 and len(pat) < size:
            free = pat[-1][1] - (pat[-2][1] if len(pat) > 1 and pat[-2][0] == 'T' else 0)
            n = rng.choice([free, rng.randint(0, free), 0])
            m = max(w.length(), n) if rng.random() < 0.7 else n
            pat += [('T', n), ('C', m)]
    if not valid(pat):
        raise AssertionError('harness: %r' % pat)
    return pat


def timing_case(ctx, rng, n):
    w = W(ctx, rng)
    size = rng.choice([0, 1, 2, 3, 5, 9, 20])
    if n % 60 == 59:
        size = rng.choice([130, 300, 2200])
        w.long = size
    pat = make(w, size)
    s = w.f.create.Sequence(media_kind='picture')
    comps = [w.trans(x) if k == 'T' else w.clip(x) for k, x in pat]
    for c in comps:
        s.components.append(c)
    how = 'new'
    check(w, s, pat, comps, how)
    if rng.random() < 0.6:
        f = w.f
        f.content = f.create.Bin()
        f.content.attributes = f.create.Attributes()
        f.content.attributes['s'] = s
        p = ctx.path('s.avb')
        f.write(p, rng.choice(['little', 'little', 'big']))
        w.f = ctx.avb.open(p) if ctx.mode == 'pure' else ctx.avb.open(p, use_ext=ctx.mode != 'extpure')
        s = w.f.content.attributes['s']
        comps = None
        how = 'loaded'
        check(w, s, pat, comps, how)
    keep = [s]
    for k in range(rng.randint(0, 8) if not w.long else 2):
        e = edit(w, s, pat, keep)
        if e is None:
            continue
        how += ', ' + e
        ctx.count('sequence_edits')
        if rng.random() < 0.2 and e not in ('inner',):
            del keep[1:]
            collect()
        check(w, s, pat, None, how)
    ctx.seen(tuple((k, min(x, 20)) for k, x in pat)[:8], how[:60])


def edit(w, s, pat, keep):
    rng = w.rng
    e = rng.choice(['append', 'insert', 'remove', 'length', 'length', 'replace', 'reverse', 'slice', 'pop', 'new list', 'clip and transition', 'inner'])
    new = list(pat)
    L = s.components
    if e == 'append':
        c = w.clip(w.length())
        new.append(('C', c.length))
        act = lambda: L.append(c)
    elif e == 'insert':
        i = rng.randint(0, len(pat))
        c = w.clip(w.length())
        new.insert(i, ('C', c.length))
        act = lambda: L.insert(i, c)
    elif e == 'clip and transition':
        a, b = w.length(), w.length()
        t = w.trans(rng.randint(0, min(a, b)))
        x, y = w.clip(a), w.clip(b)
        new += [('C', a), ('T', t.length), ('C', b)]
        act = lambda: L.extend([x, t, y])
    elif not pat:
        return None
    elif e in ('remove', 'pop'):
        i = rng.randrange(len(pat))
        del new[i]
        act = (lambda: L.pop(i)) if e == 'pop' else (lambda: L.__delitem__(i))
    elif e == 'length':
        i = rng.randrange(len(pat))
        c = L[i]
        if c.class_id == b'SEQU':
            return None
        n = w.length()
        new[i] = (pat[i][0], n)
        act = lambda: setattr(c, 'length', n)
        keep.append(c)
    elif e == 'inner':
        at = [i for i in range(len(pat)) if L[i].class_id == b'SEQU' and len(L[i].components) and L[i].components[0].class_id != b'SEQU']
        if not at:
            return None
        i = rng.choice(at)
        q = L[i]
        c = q.components[0]
        n = w.length()
        new[i] = ('C', pat[i][1] - c.length + n)
        act = lambda: setattr(c, 'length', n)
        keep += [q, c]
    elif e == 'replace':
        i = rng.randrange(len(pat))
        c = w.trans(w.length()) if pat[i][0] == 'T' else w.clip(w.length())
        new[i] = (pat[i][0], c.length)
        act = lambda: L.__setitem__(i, c)
    elif e == 'reverse':
        new.reverse()
        act = L.reverse
    elif e == 'slice':
        i = rng.randint(0, len(pat))
        j = rng.randint(i, len(pat))
        cs = [w.clip(w.length()) for x in range(rng.randint(0, 2))]
        new[i:j] = [('C', c.length) for c in cs]
        act = lambda: L.__setitem__(slice(i, j), cs)
    elif e == 'new list':
        i = rng.randint(0, len(pat))
        cs = list(L)[:i]
        new = new[:i]
        act = lambda: setattr(s, 'components', cs)
    if not valid(new) and not w.loose:
        return None
    act()
    pat[:] = new
    return e


WORKLOADS = {'timing': timing_case}
