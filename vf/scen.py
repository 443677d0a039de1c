# -*- coding: utf-8 -*-
"""Scenarios: ways a file's content comes into being, each with the model of that content."""
import io

from . import fmt, libio
from .common import named
from .edit import Editor, expand

SAMPLES = None


class Scene(object):
    """an open library file f whose content must equal the model graph g"""

    def __init__(self, f, g, how):
        self.f, self.g, self.how = f, g, how
        self.keep = []


def built(ctx, rng, **kw):
    g = libio.rand_graph(rng, rng.randint(3, 30), maxlist=rng.choice([1, 3, 6]), **kw)
    f = ctx.avb.open()
    f.content = libio.Builder(f).graph(g)
    return Scene(f, g, 'built')


def loaded(ctx, rng, **kw):
    g = libio.rand_graph(rng, rng.randint(3, 30), maxlist=rng.choice([1, 3, 6]), **kw)
    bo = rng.choice(['little', 'little', 'big'])
    order = libio.shuffled_order(g, rng) if rng.random() < 0.5 else None
    f = libio.open_bytes(ctx.avb, fmt.build_file(g, bo, order), ctx.mode)
    return Scene(f, g, 'loaded-' + bo)


def edited(ctx, rng, steps=None, **kw):
    s = (loaded if rng.random() < 0.75 else built)(ctx, rng, **kw)
    e = Editor(ctx, s.f, s.g, rng, hold=rng.choice([0.0, 0.3, 0.9]))
    for k in range(steps or rng.randint(1, 25)):
        e.step()
    s.keep.append(e)
    s.how += '-edited'
    ctx.count('scene_edit_steps', len(e.log))
    return s


def moved(ctx, rng, **kw):
    """part of another file (loaded or built) copied into a new or loaded one"""
    src = edited(ctx, rng, steps=rng.randint(1, 4), **kw)
    dst = (loaded if rng.random() < 0.5 else built)(ctx, rng, want=[b'ATTR'], **kw)
    objs = dst.g.objs
    roots = [x for x in fmt.order_of(dst.g) if objs[x].cls == b'ATTR']
    se = Editor(ctx, src.f, src.g, rng)
    de = Editor(ctx, dst.f, dst.g, rng)
    for k in range(rng.randint(1, 3)):
        i = se.choose(lambda o: o.cls not in (b'ABIN', b'BINF'))
        if i is None or not roots:
            continue
        base = max(objs)
        # the copy has no sharing with anything: expand as a tree
        tmp = dict(src.g.objs)
        n = expand(src.g, i, tmp)
        if n is None:
            continue
        new = dict((j, tmp[j]) for j in tmp if j not in src.g.objs)
        off = base + 1 - min(new)
        for j in new:
            objs[j + off] = fmt.Obj(new[j].cls, shift(new[j].f, off))
        a = rng.choice(roots)
        key = u'moved%d' % k
        de.get(a)[key] = se.get(i).copy(dst.f)
        objs[a].f['_items'] = objs[a].f['_items'] + [[key, 3, fmt.Ref(n + off)]]
        ctx.count('scene_copies')
    dst.how = src.how + ' copied into ' + dst.how
    if rng.random() < 0.5:
        src.f.close()
    else:
        dst.keep.append(src)
    return dst


def shift(v, off):
    if isinstance(v, fmt.Ref):
        return fmt.Ref(v.id + off)
    if isinstance(v, dict):
        return dict((k, shift(v[k], off)) for k in v)
    if isinstance(v, list):
        return [shift(x, off) for x in v]
    return v


KINDS = {'built': built, 'loaded': loaded, 'edited': edited, 'moved': moved}


def any_scene(ctx, rng, **kw):
    k = rng.choice(sorted(KINDS))
    ctx.count('scene_' + k)
    return KINDS[k](ctx, rng, **kw)


def save(ctx, f, bo, name='o.avb'):
    p = ctx.path(name)
    f.write(named(p, getattr(f, 'next_object_id', 0)), bo)
    with open(p, 'rb') as h:
        return h.read()
