# -*- coding: utf-8 -*-
"""C08: every file written is structurally sound"""
import calendar
import datetime
import os
import time

from . import edit, fmt, libio, samples, scen
from .common import Violation, collect

PROPERTY = 'C08'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: an independent strict parser checks every file the library writes under random histories'
LEVEL_NOTE = 'Sampling of contents and histories; every byte of every written file is accounted for.'
RULE = ('scene: files written from built, loaded, edited and copied contents, in both byte orders, several times with edits, removals '
        'and unattached new objects in between; each is parsed strictly: header fields, announced count, sizes against the file '
        'length, decodable objects, references null or to earlier objects, every stored object reachable, every reachable object of '
        'the model stored once, root last and a bin. Distinct: scenario, byte order, number of objects and of shared objects.')
ASSUMPTIONS = ['fmt.parse_file is a correct strict parser']
PLANS = {'quick': [('pure', 'scene', 200, 2), ('ext', 'scene', 200, 2), ('extpure', 'scene', 60, 1),
                   ('pure', 'shape', 120, 1), ('ext', 'shape', 120, 1), ('pure', 'sample', 14, 7), ('pure', 'header', 200, 1)],
         'thorough': [('pure', 'scene', 6000, 8), ('ext', 'scene', 6000, 8), ('extpure', 'scene', 2000, 8),
                      ('pure', 'shape', 2000, 8), ('ext', 'shape', 2000, 8), ('pure', 'sample', 14, 14), ('ext', 'sample', 14, 14),
                      ('pure', 'header', 3000, 4)]}
REQUIRED = {'files_checked': 1500, 'objects_checked': 20000, 'shared_objects': 300, 'rewrites': 300}


def audit(ctx, f, out, bo, want, what):
    """want: number of objects reachable in memory, or the model"""
    def bad(msg):
        raise Violation('%s, %s endian: %s' % (what, bo, msg))
    try:
        p = fmt.parse_file(out)
    except fmt.FormatError as e:
        bad('not a sound file: %s' % e)
    if p.bo != bo:
        bad('byte order mark')
    if p.root != p.count:
        bad('root is object %d of %d' % (p.root, p.count))
    if p.graph.objs[p.root].cls not in (b'ABIN', b'BINF'):
        bad('the last object is a %r' % p.graph.objs[p.root].cls)
    if p.graph.objs[p.root].cls != bytes(f.content.class_id):
        bad('the root is a %r, the content a %r' % (p.graph.objs[p.root].cls, f.content.class_id))
    shared = {}
    for i in p.graph.objs:
        for r in fmt.refs_of(p.graph.objs[i]):
            shared[r] = shared.get(r, 0) + 1
            if not 1 <= r < i:
                bad('object %d (%r) refers to object %d, which is not stored before it' % (i, p.graph.objs[i].cls, r))
    reach = set(fmt.order_of(p.graph))
    if len(reach) != p.count:
        bad('%d objects stored, %d reachable from the bin' % (p.count, len(reach)))
    if want is not None:
        n = len(fmt.order_of(want))
        if n != p.count:
            bad('%d objects stored, %d reachable in memory' % (p.count, n))
        d = fmt.compare(want, p.graph)
        if d:
            bad('stored objects differ from the content: %s' % '; '.join(d))
    if p.save_str != f.last_save.strftime('%Y/%m/%d %H:%M:%S'):
        bad('save time text %r, last_save %s' % (p.save_str, f.last_save))
    if p.save_ts != libio.stamp_of(f.last_save):
        bad('save time %r, last_save %s' % (p.save_ts, f.last_save))
    if len(p.version_raw) != 30 or p.version_raw.decode('mac_roman').rstrip() != f.creator_version[:30].rstrip():
        bad('creator version %r, was %r' % (p.version_raw, f.creator_version))
    if p.skip != b'\0' * 4 or p.reserved != b'\0' * 16:
        bad('reserved bytes are not zero')
    ctx.count('files_checked')
    ctx.count('objects_checked', p.count)
    k = len([1 for r in shared if shared[r] > 1])
    ctx.count('shared_objects', k)
    ctx.seen(what.split(' ')[0], bo, p.count, k)
    return p


def scene_case(ctx, rng, n):
    s = scen.any_scene(ctx, rng)
    for bo in ('little', 'big'):
        audit(ctx, s.f, scen.save(ctx, s.f, bo), bo, s.g, s.how)
    e = edit.Editor(ctx, s.f, s.g, rng)
    loose = []
    for k in range(rng.randint(1, 3)):
        for x in range(rng.randint(1, 4)):
            e.step()
        for x in range(rng.randint(0, 2)):
            # created but never attached: not part of the file
            o = getattr(s.f.create, rng.choice(['Filler', 'Attributes', 'Composition', 'SourceClip']))()
            if rng.random() < 0.5:
                loose.append(o)
        if rng.random() < 0.3:
            collect()
        bo = rng.choice(['little', 'big'])
        audit(ctx, s.f, scen.save(ctx, s.f, bo), bo, s.g, s.how + ' rewritten after %s' % (e.log[-4:],))
        ctx.count('rewrites')


def shape_case(ctx, rng, n):
    """extreme shapes: chains, heavy sharing, null heavy, empty bin, wide"""
    kind = ['chain', 'diamond', 'wide', 'empty', 'sharedall', 'order'][n % 6]
    g = fmt.Graph()
    rootcls = rng.choice([b'ABIN', b'BINF'])
    root = fmt.generate(rootcls, rng, lambda n, c, r: None, maxlist=0)
    ids = []

    def attr(items):
        i = len(g.objs) + 1
        g.objs[i] = fmt.Obj(b'ATTR', {'_items': items})
        return i
    if kind == 'chain':
        last = attr([])
        for k in range(rng.choice([10, 60, 150])):
            last = attr([[u'next', 3, fmt.Ref(last)]])
    elif kind == 'diamond':
        last = attr([])
        for k in range(rng.choice([3, 5, 7])):
            a = attr([[u'x', 3, fmt.Ref(last)]])
            b = attr([[u'x', 3, fmt.Ref(last)], [u'y', 3, fmt.Ref(last)]])
            last = attr([[u'a', 3, fmt.Ref(a)], [u'b', 3, fmt.Ref(b)]])
    elif kind == 'wide':
        last = attr([[u'k%d' % k, 3, fmt.Ref(attr([]))] for k in range(rng.choice([100, 600]))])
    elif kind == 'sharedall':
        leaf = attr([])
        last = attr([[u'k%d' % k, 3, fmt.Ref(attr([[u'leaf', 3, fmt.Ref(leaf)]]))] for k in range(20)])
    else:
        last = attr([])
    root.f['attributes'] = fmt.Ref(last) if kind != 'empty' else None
    g.root = len(g.objs) + 1
    g.objs[g.root] = root
    if rng.random() < 0.5:
        f = ctx.avb.open()
        f.content = libio.Builder(f).graph(g)
    else:
        order = libio.shuffled_order(g, rng) if rng.random() < 0.7 else None
        f = libio.open_bytes(ctx.avb, fmt.build_file(g, rng.choice(['little', 'big']), order), ctx.mode)
    for bo in ('little', 'big'):
        audit(ctx, f, scen.save(ctx, f, bo), bo, g, kind)


def sample_case(ctx, rng, n):
    fs = samples.files()
    if n >= len(fs):
        return
    with libio.open_bytes(ctx.avb, samples.data(fs[n]), ctx.mode) as f:
        g = fmt.parse_file(samples.data(fs[n])).graph
        for bo in ('little', 'big'):
            audit(ctx, f, scen.save(ctx, f, bo), bo, g, 'sample')


def header_case(ctx, rng, n):
    """header fields of new and loaded files, as set by the program"""
    if n % 2:
        f = ctx.avb.open()
    else:
        g = libio.rand_graph(rng, 2)
        f = libio.open_bytes(ctx.avb, fmt.build_file(g, rng.choice(['little', 'big']), version=u'Version %d' % rng.randint(0, 99),
                                                     save_ts=rng.randint(0, 2**31)), ctx.mode)
    v = rng.choice([None, u'', u'x', u'caf\u00e9 1.0', u'y' * 29, u'z' * 30, u'w' * 31, u'q' * 200])
    if v is not None:
        f.creator_version = v
    t = rng.choice([None, datetime.datetime(2001, 2, 3, 4, 5, 6), datetime.datetime(1999, 12, 31, 23, 59, 59),
                    datetime.datetime(2037, 6, 7, 8, 9, 10, 999999)])
    if t is not None:
        f.last_save = t
    bo = rng.choice(['little', 'big'])
    audit(ctx, f, scen.save(ctx, f, bo), bo, None, 'header')


WORKLOADS = {'scene': scene_case, 'shape': shape_case, 'sample': sample_case, 'header': header_case}
