# -*- coding: utf-8 -*-
"""C09: failed or repeated writes damage neither memory nor the target file"""
import os
import resource
import signal
import sys

from . import c01, c03, common, edit, fmt, libio, scen
from .common import Violation, HarnessError, collect

PROPERTY = 'C09'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring with fault injection: writes made to fail by content, foreign objects and disk faults; memory, targets and later writes observed'
LEVEL_NOTE = 'Sampling of contents and fault points; disk faults are file size limits at random offsets, a full device and unusable paths.'
RULE = ('content: a hostile value makes a write to an existing target fail: target bytes, memory (value by value) and, after the value '
        'is restored, a complete later write are checked. foreign: an object of another file is put in every kind of place. disk: '
        'the write runs against a file size limit at a random offset, /dev/full or an impossible path. twice: repeated and '
        'alternating writes, also over the source file, are identical and change nothing. fresh: objects as constructed, tracks with any part of their '
        'properties, bins of more than 65535 items: every present property and its type before and after each write. Distinct: kind, place or fault and outcome.')
ASSUMPTIONS = ['a disk failure may leave the target incomplete (only content failures must leave it untouched)']
PLANS = {'quick': [('pure', 'content', 700, 2), ('ext', 'content', 300, 2), ('pure', 'foreign', 300, 1), ('ext', 'foreign', 300, 2),
                   ('pure', 'disk', 150, 1), ('ext', 'disk', 100, 1), ('pure', 'twice', 150, 1), ('ext', 'twice', 150, 1),
                   ('pure', 'fresh', 300, 1), ('ext', 'fresh', 150, 1)],
         'thorough': [('pure', 'content', 12000, 8), ('ext', 'content', 6000, 8), ('pure', 'foreign', 8000, 8), ('ext', 'foreign', 8000, 8),
                      ('pure', 'disk', 4000, 8), ('ext', 'disk', 2000, 8), ('pure', 'twice', 4000, 8), ('ext', 'twice', 4000, 8), ('pure', 'fresh', 4000, 8), ('ext', 'fresh', 2000, 8)]}
REQUIRED = {'content_failures': 300, 'foreign_refused': 300, 'disk_failures': 120, 'repeated_writes': 500, 'over_source': 60, 'fresh_written': 200, 'fresh_refused': 20, 'huge_bins': 2}


def read(p):
    with open(p, 'rb') as h:
        return h.read()


def target(ctx, rng, name='target.avb'):
    p = ctx.path(name)
    data = b'precious bytes %d ' % rng.getrandbits(40) * rng.choice([0, 1, 500])
    with open(p, 'wb') as h:
        h.write(data)
    return p, data


def try_write(f, p, bo):
    """the exception of a failed write, or None"""
    try:
        f.write(p, bo)
    except Exception as e:
        return e
    return None


class Memory(object):
    def __init__(self, f):
        self.content, self.exact = libio.content(f), libio.exact(f)


def unchanged(ctx, f, before, what):
    d = libio.exact_diff(before.exact, libio.exact(f))
    if d:
        raise Violation('%s: memory changed: %s' % (what, d))
    c03.same_typed(before.content, libio.content(f), what + ': before and after')
    ctx.count('memory_compared')


def complete(ctx, f, want, bo, what):
    """a write succeeds and has everything"""
    p = ctx.path('good.avb')
    e = try_write(f, p, bo)
    if e is not None:
        raise Violation('%s: a write fails although the cause is removed: %s: %s' % (what, type(e).__name__, e))
    out = read(p)
    try:
        pf = fmt.parse_file(out)
    except fmt.FormatError as x:
        raise Violation('%s: the file written afterwards is not sound: %s' % (what, x))
    d = fmt.compare(want, pf.graph)
    if d:
        raise Violation('%s: the file written afterwards is not complete: %s' % (what, '; '.join(d)))
    if pf.count != len(fmt.order_of(pf.graph)):
        raise Violation('%s: the file written afterwards has unreachable objects' % what)
    return out


def content_case(ctx, rng, n):
    kinds = sorted(fmt.KINDS)
    cls = kinds[n % len(kinds)]
    g = libio.rand_graph(rng, rng.randint(2, 10), want=[b'ATTR', cls], wild=rng.random() < 0.5,
                         root_cls=cls if cls in (b'ABIN', b'BINF') else None)
    if rng.random() < 0.3:
        f = ctx.avb.open()
        f.content = libio.Builder(f).graph(g)
    else:
        f = libio.open_bytes(ctx.avb, fmt.build_file(g, rng.choice(['little', 'big'])), ctx.mode)
    e = edit.Editor(ctx, f, g, rng)
    i = rng.choice([j for j in fmt.order_of(g) if g.objs[j].cls == cls])
    o = e.get(i)
    good = complete(ctx, f, g, 'little', 'before') if rng.random() < 0.5 else None
    if isinstance(o, list):
        saved = list(o)
    elif isinstance(o, dict):
        saved = dict(o.items())
    else:
        saved = None
        m = g.objs[i]
        old = [(k, e.value(m.f[k], k, libio.schema(cls)[k], cls)) for k in m.f if k in libio.schema(cls)]
    desc = c01.mutate(ctx, rng, o, g.objs[i])
    if desc is None:
        ctx.count('nothing_to_try')
        return
    try:
        before = Memory(f)
    except Violation:
        before = None
    p, data = target(ctx, rng)
    bo = rng.choice(['little', 'big'])
    x = try_write(f, p, bo)
    if x is None:
        ctx.count('value_accepted')
        return
    what = '%r with %s, write failed with %s' % (cls, desc, type(x).__name__)
    if read(p) != data:
        raise Violation('%s: the existing target was changed (%d bytes, had %d)' % (what, os.path.getsize(p), len(data)))
    if rng.random() < 0.4:
        # no new file either
        q = ctx.path('new.avb')
        try_write(f, q, bo)
        if os.path.exists(q):
            raise Violation('%s: left a new file of %d bytes behind' % (what, os.path.getsize(q)))
    if before is not None:
        unchanged(ctx, f, before, what)
    ctx.count('content_failures')
    ctx.seen(cls, desc.split(' ')[0], type(x).__name__)
    # remove the cause
    if saved is not None:
        if isinstance(o, list):
            o[:] = [] if sys.implementation.name == 'pypy' else saved
            if sys.implementation.name == 'pypy':
                o.extend(saved)
        else:
            o.clear()
            o.update(saved)
            order = [k for k, t, v in g.objs[i].f['_items']]
            for k in order:
                v = o.pop(k)
                o[k] = v
    else:
        for k, v in old:
            setattr(o, k, v)
    if rng.random() < 0.3:
        collect()
    out = complete(ctx, f, g, bo, what)
    out = complete(ctx, f, g, 'little', what)
    if good is not None and saved is None and out != good:
        if not same_chunks(out, good):
            raise Violation('%s: after the cause was removed the file is not the one written before' % what)


def same_chunks(a, b):
    return not fmt.compare(fmt.parse_file(a).graph, fmt.parse_file(b).graph)


PLACES = ['attr', 'attr_new', 'attr_update', 'field', 'mob', 'mob_add', 'reflist', 'components', 'track', 'content', 'nested',
          'attributes', 'setdefault', 'plainlist']


def foreign_case(ctx, rng, n):
    place = PLACES[n % len(PLACES)]
    g = libio.rand_graph(rng, rng.randint(2, 8), want=[b'ATTR', b'PRLS', b'SEQU', b'CMPO', b'SCLP'], root_cls=b'ABIN')
    g2 = libio.rand_graph(rng, rng.randint(2, 8), want=[b'ATTR', b'FILL', b'SCLP', b'CMPO', b'PRIT'], root_cls=b'ABIN')

    def make(g):
        if rng.random() < 0.4:
            f = ctx.avb.open()
            f.content = libio.Builder(f).graph(g)
            return f
        return libio.open_bytes(ctx.avb, fmt.build_file(g, rng.choice(['little', 'big'])), ctx.mode)
    f, f2 = make(g), make(g2)
    if rng.random() < 0.3:
        libio.content(f)
    if rng.random() < 0.3:
        libio.content(f2)
    if rng.random() < 0.3:
        f2.write(ctx.path('other.avb'))
    e, e2 = edit.Editor(ctx, f, g, rng), edit.Editor(ctx, f2, g2, rng)
    want_cls = b'CMPO' if place in ('mob', 'mob_add', 'content') else None
    if rng.random() < 0.3:
        alien = getattr(f2.create, 'Composition' if want_cls else rng.choice(['Filler', 'Attributes', 'Sequence', 'SourceClip']))()
    else:
        ids = [i for i in fmt.order_of(g2) if (g2.objs[i].cls == want_cls if want_cls else g2.objs[i].cls not in (b'ABIN', b'BINF'))]
        alien = e2.get(rng.choice(ids))
    if place == 'content':
        alien = f2.content
    find = lambda c: rng.choice([i for i in fmt.order_of(g) if g.objs[i].cls == c])
    undo = None
    if place in ('attr', 'attr_new', 'attr_update', 'setdefault', 'nested'):
        i = find(b'ATTR')
        a = e.get(i)
        if place == 'attr' and g.objs[i].f['_items']:
            k = rng.choice(g.objs[i].f['_items'])
            old = a[k[0]]
            a[k[0]] = alien
            undo = lambda: a.__setitem__(k[0], old)
        else:
            k = u'alien'
            if place == 'attr_update':
                a.update({k: alien})
            elif place == 'setdefault':
                a.setdefault(k, alien)
            elif place == 'nested':
                inner = f.create.Attributes()
                inner[u'deep'] = alien
                a[k] = inner
            else:
                a[k] = alien
            undo = lambda: a.pop(k)
    elif place in ('field', 'attributes', 'components', 'plainlist'):
        i = find(b'SEQU')
        o = e.get(i)
        name = 'attributes' if place == 'attributes' else ('components' if place in ('components', 'plainlist') else 'session_attr')
        name = name if name in libio.schema(b'SEQU') else 'attributes'
        if name == 'components':
            old = list(o.components)
            if place == 'plainlist':
                o.components = old + [alien]
            else:
                o.components.append(alien)
            undo = lambda: setattr(o, 'components', old)
        else:
            old = getattr(o, name, None)
            setattr(o, name, alien)
            undo = lambda: setattr(o, name, old)
    elif place == 'reflist':
        o = e.get(find(b'PRLS'))
        at = rng.randint(0, len(o))
        o.insert(at, alien)
        undo = lambda: o.pop(at)
    elif place in ('mob', 'mob_add'):
        o = f.content
        if place == 'mob' and o.items:
            item = rng.choice(o.items)
            old = item.mob
            item.mob = alien
            undo = lambda: setattr(item, 'mob', old)
        else:
            o.add_mob(alien)
            undo = lambda: o.items.pop()
    elif place == 'track':
        o = e.get(find(b'CMPO'))
        t = f.create.Track()
        t.index = 1
        t.component = alien
        old = list(o.tracks)
        o.tracks = old + [t]
        undo = lambda: setattr(o, 'tracks', old)
    else:
        old = f.content
        f.content = alien
        undo = lambda: setattr(f, 'content', old)
    if rng.random() < 0.2:
        f2.close()
    shut = f2.f is not None and f2.f.closed
    before = Memory(f) if not shut else None
    p, data = target(ctx, rng)
    bo = rng.choice(['little', 'big'])
    x = try_write(f, p, bo)
    what = 'object of another file placed as %s' % place
    if x is None:
        raise Violation('%s was written' % what)
    if read(p) != data:
        raise Violation('%s: refused, but the existing target was changed' % what)
    if not shut:
        unchanged(ctx, f, before, what)
    ctx.count('foreign_refused')
    ctx.seen('foreign', place, type(alien).__name__, type(x).__name__)
    undo()
    complete(ctx, f, g, bo, what)
    if not shut:
        complete(ctx, f2, g2, bo, 'the other file, after its object was refused')


class Limit(object):
    """file size limit: writes beyond it fail"""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        self.lim = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.lim[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.lim)
        signal.signal(signal.SIGXFSZ, self.old)


def disk_case(ctx, rng, n):
    s = scen.any_scene(ctx, rng)
    f = s.f
    before = Memory(f) if rng.random() < 0.6 else None
    size = len(fmt.build_file(s.g, 'little'))
    bo = rng.choice(['little', 'big'])
    fault = rng.choice(['limit', 'limit', 'limit', 'full', 'nodir', 'isdir', 'notdir'])
    p = ctx.path('disk.avb')
    if fault == 'limit':
        cut = rng.choice([0, 1, rng.randrange(size), size - 1])
        with Limit(cut):
            x = try_write(f, p, bo)
    else:
        if fault == 'full':
            p = '/dev/full'
        elif fault == 'nodir':
            p = ctx.path('no/such/dir/a.avb')
        elif fault == 'isdir':
            p = ctx.path('dir')
            os.makedirs(p, exist_ok=True)
        else:
            q = ctx.path('plain')
            open(q, 'w').close()
            p = os.path.join(q, 'a.avb')
        x = try_write(f, p, bo)
    if x is None:
        # a file of the announced size would mean the fault did not happen
        raise Violation('a write that hit %s did not raise' % fault)
    if not isinstance(x, EnvironmentError):
        raise Violation('a write that hit %s raised %s instead of an OSError: %s' % (fault, type(x).__name__, x))
    ctx.count('disk_failures')
    ctx.seen('disk', fault, s.how)
    if before is not None:
        unchanged(ctx, f, before, 'disk failure (%s)' % fault)
    complete(ctx, f, s.g, bo, 'after a disk failure (%s)' % fault)


def twice_case(ctx, rng, n):
    s = scen.any_scene(ctx, rng)
    f = s.f
    if rng.random() < 0.4:
        # the file is opened by path, and saved over itself
        p = ctx.path('self.avb')
        f.write(p, rng.choice(['little', 'big']))
        f = ctx.avb.open(p, use_ext=ctx.mode != 'extpure')
        e = edit.Editor(ctx, f, s.g, rng)
        for k in range(rng.randint(0, 3)):
            e.step()
        if rng.random() < 0.5:
            e.held.clear()
            collect()
        bo = rng.choice(['little', 'big'])
        q = p
        how = rng.choice(['same', 'symlink', 'hardlink', 'relative'])
        if how != 'same':
            q = ctx.path('link%d.avb' % n)
            if how == 'symlink':
                os.symlink(p, q)
            elif how == 'hardlink':
                os.link(p, q)
            else:
                q = os.path.relpath(p)
        if rng.random() < 0.4:
            # a failing write over the source leaves the source readable
            f.content.attributes, old = None, f.content.attributes
            uid = f.content.uid
            f.content.attributes = old
            f.content.uid = -5
            x = try_write(f, q, bo)
            if x is None:
                raise Violation('a bin uid of -5 was written')
            f.content.uid = uid
            ctx.count('content_failures')
        x = try_write(f, q, bo)
        if x is not None:
            raise Violation('writing over the source file (%s) fails: %s: %s' % (how, type(x).__name__, x))
        d = fmt.compare(s.g, fmt.parse_file(read(p)).graph)
        if d:
            raise Violation('writing over the source file (%s) loses content: %s' % (how, '; '.join(d)))
        ctx.count('over_source')
        ctx.seen('over', how, s.how)
        collect()
        d = fmt.compare(s.g, libio.content(f))
        if d:
            raise Violation('after writing over the source file (%s) memory differs: %s' % (how, '; '.join(d)))
        first = scen.save(ctx, f, bo, 'second.avb')
        if first != read(p):
            raise Violation('writing over the source file (%s) and writing again differ' % how)
        f.close()
        return
    before = Memory(f) if rng.random() < 0.5 else None
    outs = {}
    for k in range(rng.randint(2, 5)):
        bo = rng.choice(['little', 'big'])
        out = scen.save(ctx, f, bo)
        ctx.count('repeated_writes')
        if bo in outs and outs[bo] != out:
            raise Violation('%s: two writes without an edit between them differ (%s endian, write %d)' % (s.how, bo, k + 1))
        outs[bo] = out
        if rng.random() < 0.3:
            collect()
        if rng.random() < 0.3:
            libio.content(f)
        if rng.random() < 0.2:
            x = try_write(f, ctx.path('no/dir/x.avb'), bo)
            if x is None:
                raise HarnessError('impossible path')
    if before is not None:
        unchanged(ctx, f, before, s.how + ' written')
    d = fmt.compare(s.g, libio.content(f))
    if d:
        raise Violation('%s: content differs after writing: %s' % (s.how, '; '.join(d)))
    ctx.seen('twice', s.how, len(outs))


# ----------------------------------------------------------------- fresh
def fresh_case(ctx, rng, n):
    """objects as their constructors leave them, with any part of their properties: whatever a write does with
    what is missing or left to default, it does not do it in memory"""
    g = libio.rand_graph(rng, 2, want=[b'ATTR'])
    f = ctx.avb.open()
    if rng.random() < 0.5:
        f.content = libio.Builder(f).graph(g)
    if f.content is None or not hasattr(f.content, 'attributes') or rng.random() < 0.5:
        f.content = f.create.Bin()
    if f.content.attributes is None:
        f.content.attributes = f.create.Attributes()
    box = f.content.attributes
    names = [libio.PYNAMES[c] for c in sorted(fmt.KINDS) if c not in (b'ABIN', b'BINF')]
    what = []

    def make(name):
        what.append(name)
        if rng.random() < 0.6:
            # with everything set
            c = [c for c in fmt.KINDS if libio.PYNAMES[c] == name][0]
            sub = libio.rand_graph(rng, rng.randint(1, 4), want=[c])
            b = libio.Builder(f)
            b.graph(sub)
            o = b.made[rng.choice([i for i in sub.objs if sub.objs[i].cls == c])]
        else:
            o = getattr(f.create, name)()
        if isinstance(o, (list, dict)):
            return o
        if isinstance(getattr(o, 'tracks', None), list):
            for k in range(rng.randint(0, 3)):
                t = f.create.Track()
                t.index = rng.randint(0, 9)
                for name, v in (('lock_number', 3), ('start_pos', 12), ('session_attr', None), ('attributes', None),
                                ('control_code', 7), ('control_sub_code', 8)):
                    if rng.random() < 0.35:
                        setattr(t, name, v)
                if rng.random() < 0.9:
                    t.component = f.create.Filler()
                o.tracks.append(t)
        return o
    for k in range(rng.randint(1, 2)):
        box[u'part%d' % k] = make(rng.choice(names) if k else names[n % len(names)])
    if n % 75 == 0:
        f.content = f.create.Bin()
    if hasattr(f.content, 'items') and isinstance(f.content.items, list):
        mob = f.create.Composition()
        f.content.add_mob(mob)
        item = f.content.items[-1]
        many = 0xffff + rng.randint(-1, 3) if n % 75 == 0 else rng.choice([0, 0, 3])
        f.content.items.extend([item] * many)
        if len(f.content.items) > 0xffff:
            ctx.count('huge_bins')
    before = libio.exact(f)
    outs = []
    for bo in (rng.choice(['little', 'big']), 'little', 'little'):
        p, data = target(ctx, rng)
        x = try_write(f, p, bo)
        ctx.count('fresh_refused' if x is not None else 'fresh_written')
        if x is not None and read(p) != data:
            raise Violation('%s as constructed: refused (%s), but the target was changed' % (', '.join(what), x))
        d = libio.exact_diff(before, libio.exact(f))
        if d:
            raise Violation('%s as constructed: a write changed memory: %s' % (', '.join(what), d))
        outs.append((x is None, x is None and read(p)))
    if outs[1] != outs[2]:
        raise Violation('%s as constructed: two writes differ' % ', '.join(what))
    ctx.seen('fresh', what[0], outs[1][0])


WORKLOADS = {'fresh': fresh_case, 'content': content_case, 'foreign': foreign_case, 'disk': disk_case, 'twice': twice_case}
