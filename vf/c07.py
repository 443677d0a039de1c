# -*- coding: utf-8 -*-
"""C07: every edit made through the API is kept and written"""
import contextlib
import io

from . import edit, fmt, libio, samples, scen
from .common import Violation, HarnessError, collect

PROPERTY = 'C07'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: random edit histories with dropped references and forced collections, each step mirrored in a model and compared through fresh accesses and saved files'
LEVEL_NOTE = 'Sampling of histories; after a random number of steps the whole content is compared with the model, and every save is.'
RULE = ('history: a loaded or built file is edited by random API operations on random objects reached over random paths, references '
        'dropped and garbage collected between any two steps; content is compared with the model during and after, and in the '
        'saved file. single: one edit of one kind on one freshly loaded object whose references are all dropped at once, then the '
        'content and the saved file compared. many: thousands of objects edited, none kept. equal: values replaced by equal ones. troubled: edits between operations that fail (unreadable objects, refused writes, lookups). Distinct: sequence of operations up to length 6, kind of the edited object.')
ASSUMPTIONS = ['edits of plain python values in place (a helper item, a plain list, bytes, a mob id) are not made through the API of '
               'their owner: workload inplace observes them separately (known findings)']
PLANS = {'quick': [('pure', 'history', 160, 2), ('ext', 'history', 160, 2), ('extpure', 'history', 60, 1),
                   ('pure', 'single', 900, 2), ('ext', 'single', 900, 2), ('ext', 'inplace', 160, 1), ('pure', 'inplace', 160, 1),
                   ('pure', 'troubled', 200, 1), ('ext', 'troubled', 200, 1), ('pure', 'many', 3, 1), ('ext', 'many', 3, 1), ('pure', 'equal', 150, 1), ('ext', 'equal', 150, 1)],
         'thorough': [('pure', 'history', 5000, 8), ('ext', 'history', 5000, 8), ('extpure', 'history', 2000, 8),
                      ('pure', 'single', 15000, 8), ('ext', 'single', 15000, 8), ('ext', 'inplace', 400, 2), ('pure', 'inplace', 400, 2), ('pure', 'troubled', 5000, 8), ('ext', 'troubled', 5000, 8), ('pure', 'many', 40, 4), ('ext', 'many', 40, 4), ('pure', 'equal', 6000, 4), ('ext', 'equal', 6000, 4)]}
REQUIRED = {'histories': 300, 'single_edits': 1000, 'collections': 1000, 'saves_compared': 1000, 'troubles': 500, 'crowd_edits': 9000, 'equal_values': 300}


def check(ctx, f, g, what):
    d = fmt.compare(g, libio.content(f))
    if d:
        raise Violation('%s: %s' % (what, '; '.join(d)))
    ctx.count('contents_compared')


def check_saved(ctx, f, g, rng, what):
    bo = rng.choice(['little', 'big'])
    out = scen.save(ctx, f, bo)
    d = fmt.compare(g, fmt.parse_file(out).graph)
    if d:
        raise Violation('%s: the saved file differs: %s' % (what, '; '.join(d)))
    ctx.count('saves_compared')
    return out


def history(ctx, rng, n):
    s = (scen.loaded if rng.random() < 0.8 else scen.built)(ctx, rng)
    e = edit.Editor(ctx, s.f, s.g, rng, hold=rng.choice([0.0, 0.0, 0.3, 0.9]))
    pgc = rng.choice([0.1, 0.5, 1.0])
    pcheck = rng.choice([0.0, 0.1, 0.4])
    for k in range(rng.choice([2, 5, 10, 25])):
        e.step()
        if rng.random() < pgc:
            e.held.clear()
            collect()
            ctx.count('collections')
        if rng.random() < pcheck:
            check(ctx, s.f, s.g, '%s after %s' % (s.how, e.log[-3:]))
        if rng.random() < 0.05:
            check_saved(ctx, s.f, s.g, rng, '%s after %s' % (s.how, e.log[-3:]))
    ctx.seen(s.how, e.log[:6])
    if rng.random() < 0.5:
        check(ctx, s.f, s.g, '%s after %s' % (s.how, e.log[-6:]))
    out = check_saved(ctx, s.f, s.g, rng, '%s after %s' % (s.how, e.log[-6:]))
    check(ctx, s.f, s.g, '%s after saving' % s.how)
    ctx.count('histories')
    # and the same file goes on living after it was reopened
    if rng.random() < 0.3:
        with libio.open_bytes(ctx.avb, out, ctx.mode) as f:
            e = edit.Editor(ctx, f, s.g, rng)
            for k in range(rng.randint(1, 6)):
                e.step()
                collect()
                ctx.count('collections')
            check_saved(ctx, f, s.g, rng, 'reopened, after %s' % (e.log[-6:],))


def single(ctx, rng, n):
    """exactly one edit, on an object nothing else keeps alive"""
    kinds = sorted(fmt.KINDS)
    cls = kinds[n % len(kinds)]
    g = libio.rand_graph(rng, 2, want=[b'ATTR', b'SCLP', b'FILL', b'PRIT', b'TMBC', cls], wild=rng.random() < 0.5,
                         root_cls=cls if cls in (b'ABIN', b'BINF') else None)
    bo = 'big' if rng.random() < 0.2 else 'little'
    with libio.open_bytes(ctx.avb, fmt.build_file(g, bo), ctx.mode) as f:
        e = edit.Editor(ctx, f, g, rng)
        ids = [i for i in fmt.order_of(g) if g.objs[i].cls == cls]
        i = rng.choice(ids)
        if rng.random() < 0.3:
            libio.content(f)
        if cls == b'ATTR':
            op = e.attr_op
        elif cls in e.LISTCLS and rng.random() < 0.7:
            op = e.list_op
        else:
            op = e.set_fields
        if cls in (b'PRLS', b'TMCS'):
            op = e.list_op
        if op(i) is None:
            ctx.count('nothing_to_edit')
            return
        collect()
        ctx.count('collections')
        ctx.seen(cls, e.log[-1], bo)
        ctx.count('single_edits')
        what = '%s endian file, after %s' % (bo, e.log)
        order = [check, check_saved]
        if rng.random() < 0.5:
            check(ctx, f, g, what)
            collect()
        check_saved(ctx, f, g, rng, what)
        check(ctx, f, g, what)


# a value edited in place, without assigning it to its owner
INPLACE = [
    ('helper', b'CMPO', lambda o: setattr(o.tracks[0], 'index', 77), lambda o: getattr(o.tracks[0], 'index', 0) == 77),
    ('helper', b'FXPS', lambda o: setattr(o.parameters[0], 'percent_time', 77), lambda o: getattr(o.parameters[0], 'percent_time', 0) == 77),
    ('helper', b'PRCL', lambda o: setattr(o.control_points[0], 'timescale', 77), lambda o: getattr(o.control_points[0], 'timescale', 0) == 77),
    ('list', b'MULD', lambda o: o.descriptors.pop() if False else o.tracks.pop(), None),
    ('list', b'SLCT', lambda o: o.tracks.append(o.tracks[0]), None),
    ('list', b'TMBC', lambda o: o.color.__setitem__(1, 4321), lambda o: o.color[1] == 4321),
    ('bytes', b'GRFX', lambda o: o.pict_data.append(7), lambda o: bytes(o.pict_data)[-1:] == b'\x07'),
    ('mob-id', b'CMPO', lambda o: setattr(o.mob_id, 'Data1', 0x11223344), lambda o: o.mob_id.Data1 == 0x11223344),
    ('bin-list', b'ABIN', lambda o: o.sort_columns.append([1, u'Name']), lambda o: o.sort_columns[-1:] == [[1, u'Name']]),
    ('bin-helper', b'ABIN', lambda o: setattr(o.items[0], 'x', 77), lambda o: o.items[0].x == 77),
    ('bin-helper', b'ABIN', lambda o: setattr(o.sifted_settings[0], 'string', u'abc'), lambda o: o.sifted_settings[0].string == u'abc'),
]
INPLACE = [x for x in INPLACE if x[3]]


def inplace(ctx, rng, n):
    name, cls, do, seen = INPLACE[n % len(INPLACE)]
    held = (n // len(INPLACE)) % 2 == 0
    g = libio.rand_graph(rng, 1, want=[cls] if cls != b'ABIN' else [b'CMPO'], root_cls=b'ABIN')
    if cls == b'ABIN' and not g.objs[g.root].f['items']:
        g.objs[g.root].f['items'].append({'mob': None, 'x': 1, 'y': 2, 'keyframe': 3, 'user_placed': True})
    f = libio.open_bytes(ctx.avb, fmt.build_file(g, 'little'), ctx.mode)
    e = edit.Editor(ctx, f, g, rng)
    i = [i for i in fmt.order_of(g) if g.objs[i].cls == cls][-1]
    try:
        o = e.get(i)
        do(o)
    except (AttributeError, IndexError):
        ctx.count('nothing_to_edit')
        return
    if not held:
        del o
    collect()
    ctx.count('inplace_edits')
    # the bin, and every object the program holds, stay alive with their values
    ctx.seen('inplace', name, cls, held)
    alive = held or cls == b'ABIN'
    if not seen(e.get(i)):
        if alive:
            raise Violation('%s of %r, which is alive, edited in place is lost' % (name, cls))
        raise Violation('%s of a loaded %r edited in place is lost when the object is collected' % (name, cls), 'inplace-' + name)
    if alive:
        out = scen.save(ctx, f, 'little')
        with libio.open_bytes(ctx.avb, out, ctx.mode) as h:
            if not seen(edit.Editor(ctx, h, g, rng).get(i)):
                raise Violation('%s of %r, which is alive, edited in place is not saved' % (name, cls))
        ctx.count('inplace_saved')


def sample(ctx, rng, n):
    """edits of the sample files"""
    fs = samples.files()
    with libio.open_bytes(ctx.avb, samples.data(fs[n % len(fs)]), ctx.mode) as f:
        g = libio.content(f)
        collect()
        e = edit.Editor(ctx, f, g, rng)
        for k in range(8):
            e.step(['set_fields', 'attr_op', 'list_op', 'new', 'drop'])
            collect()
        ctx.count('collections', 8)
        check_saved(ctx, f, g, rng, 'sample after %s' % (e.log,))


# -------------------------------------------------------------- troubled
def damaged_file(g, rng, bo):
    """the file of g with one more object at its end, which nothing refers to and which can not be read"""
    order = fmt.order_of(g)
    k = max(g.objs) + 1
    g.objs[k] = fmt.generate(rng.choice([b'FILL', b'SCLP', b'TMCS', b'ATTR', b'CMPO']), rng, lambda *a: None)
    data = bytearray(fmt.build_file(g, bo, order + [k]))
    body = len(fmt.frame(g.objs[k].cls, fmt.encode(g.objs[k], bo, {}), bo))
    at = len(data) - body
    del g.objs[k]
    how = rng.choice(['kind', 'first', 'second', 'last'])
    if how == 'kind':
        data[at:at + 4] = b'ZZZZ'
    else:
        data[{'first': at + 8, 'second': at + 9, 'last': len(data) - 1}[how]] ^= 0x55
    return bytes(data), len(order) + 1, how


def troubled(ctx, rng, n):
    """things that fail between the edits: unreadable objects, refused writes, values and lookups"""
    g = libio.rand_graph(rng, rng.randint(2, 12), want=[b'ATTR', b'PRLS', b'SEQU', b'CMPO'])
    data, bad, how = damaged_file(g, rng, rng.choice(['little', 'little', 'big']))
    f = libio.open_bytes(ctx.avb, data, ctx.mode)
    e = edit.Editor(ctx, f, g, rng, hold=rng.choice([0.0, 0.9]))
    other = ctx.avb.open()
    find = lambda c: e.get(rng.choice([i for i in fmt.order_of(g) if g.objs[i].cls == c]))

    def fails(what, fn):
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                fn()
        except Exception as x:
            ctx.count('troubles')
            return type(x).__name__
        if what != 'damaged':
            raise HarnessError('%s does not fail' % what)
        ctx.count('damage_accepted')

    def foreign_write():
        b = find(b'ATTR')
        b[u'foreign'] = other.create.Filler()
        try:
            f.write(ctx.path('foreign.avb'))
        finally:
            del b[u'foreign']
    troubles = {'damaged': lambda: f.read_object(bad), 'beyond': lambda: f.read_object(bad + 10 ** 7),
                'unwritable': lambda: f.write(ctx.path('no/such/dir.avb')), 'foreign': foreign_write,
                'kind': lambda: f.create.Nonsense(), 'key': lambda: find(b'ATTR')[u'no such key'],
                'index': lambda: find(b'PRLS')[10 ** 6], 'remove': lambda: find(b'PRLS').remove(7),
                'attribute': lambda: find(b'SEQU').no_such_thing, 'arguments': lambda: f.create.SourceClip(1, 2, 3, 4, 5, 6, 7, 8, 9),
                'pop': lambda: find(b'ATTR').pop(u'no such key'), 'order': lambda: f.write(ctx.path('x.avb'), 'middle')}
    for k in range(rng.choice([1, 3, 8])):
        snapper = None
        if rng.random() < 0.6:
            # everything is loaded: no reading between the failure and the edit
            snapper = libio.Snapper()
            snapper.run(f.content)
        name = rng.choice(sorted(troubles) + ['damaged'] * 6)
        if rng.random() < 0.2:
            e.step()
        x = fails(name, troubles[name])
        ctx.seen('troubled', name, x, how, snapper is not None)
        e.step()
        del snapper
        e.held.clear()
        collect()
        ctx.count('collections')
        if rng.random() < 0.5:
            check(ctx, f, g, 'after %s failed with %s and %s' % (name, x, e.log[-2:]))
    check_saved(ctx, f, g, rng, 'after failures (the last: %s, %s) and %s' % (name, x, e.log[-6:]))
    check(ctx, f, g, 'after failures (the last: %s, %s) and %s' % (name, x, e.log[-6:]))


def many(ctx, rng, n):
    """thousands of edited objects that nothing else keeps alive"""
    total = rng.choice([1500, 5000, 9000])
    f0 = ctx.avb.open()
    a = f0.content.attributes
    for k in range(total):
        a[u'%d' % k] = [f0.create.Filler, f0.create.Attributes, f0.create.ParameterList][k % 3]()
    a = None
    data = scen.save(ctx, f0, rng.choice(['little', 'big']))
    with libio.open_bytes(ctx.avb, data, ctx.mode) as f:
        a = f.content.attributes        # the map itself is only read
        value = {}
        order = list(range(total))
        for turn in range(2):
            rng.shuffle(order)
            for k in order[:total if turn == 0 else total // 3]:
                o = a[u'%d' % k]
                v = value[k] = k + 7 * turn + 1
                if k % 3 == 0:
                    o.length = v
                elif k % 3 == 1:
                    o[u'x'] = v
                else:
                    o.extend([None] * (v % 5 + 1 - len(o)))
                    del o[v % 5 + 1:]
                if rng.random() < 0.2:
                    # edited once more
                    if k % 3 == 0:
                        o.name = u'n'
                    elif k % 3 == 1:
                        o[u'y'] = v
                    else:
                        o.append(None)
                        o.pop()
            o = None
            collect()
            ctx.count('collections')

        def verify(a, what):
            for k in rng.sample(order, total):
                o = a[u'%d' % k]
                got = o.length if k % 3 == 0 else o.get(u'x') if k % 3 == 1 else len(o)
                want = value[k] if k % 3 < 2 else value[k] % 5 + 1
                if got != want:
                    raise Violation('of %d edited objects, number %d (%s) is %r %s, not %r' % (total, k, type(o).__name__, got, what, want))
        verify(a, 'after a collection')
        out = scen.save(ctx, f, rng.choice(['little', 'big']))
        verify(a, 'after a write')
    with libio.open_bytes(ctx.avb, out, ctx.mode) as f:
        a = f.content.attributes
        verify(a, 'in the saved file')
    ctx.count('crowd_edits', total)
    ctx.seen('many', total)


def equal_case(ctx, rng, n):
    """a value replaced by an equal one, which is what the file then holds: changes of it are kept"""
    f = ctx.avb.open()
    make = {'bytes': lambda: bytearray(b'12'), 'map': f.create.Attributes, 'list': f.create.ParameterList,
            'crumbs': f.create.TimeCrumbList, 'clip': f.create.Filler}
    kind = rng.choice(sorted(make))
    top = f.content.attributes
    top[u'm'] = f.create.Attributes()
    top[u'l'] = f.create.ParameterList()
    top[u'o'] = f.create.Filler()
    top[u'o'].attributes = f.create.Attributes()
    if rng.random() < 0.7 or kind == 'bytes':
        where = 'map'
        top[u'm'][u'k'] = make[kind]()
    elif rng.random() < 0.6:
        where = 'list'
        top[u'l'].append(make[kind]())
    else:
        where, kind = 'object', 'map'
    top = None
    how = 'new'
    if rng.random() < 0.7:
        how = 'loaded'
        f = libio.open_bytes(ctx.avb, scen.save(ctx, f, rng.choice(['little', 'big'])), ctx.mode)
        make = {'bytes': lambda: bytearray(b'12'), 'map': f.create.Attributes, 'list': f.create.ParameterList,
                'crumbs': f.create.TimeCrumbList, 'clip': f.create.Filler}
    def holder():
        return f.content.attributes[{'map': u'm', 'list': u'l', 'object': u'o'}[where]]
    def now(f):
        h = f.content.attributes[{'map': u'm', 'list': u'l', 'object': u'o'}[where]]
        return h[u'k'] if where == 'map' else h[0] if where == 'list' else h.attributes
    x = make[kind]()
    op = rng.choice(['set', 'update', 'again']) if where == 'map' else 'set'
    h = holder()
    if where == 'map':
        if op == 'set':
            h[u'k'] = x
        elif op == 'update':
            h.update({u'k': x})
        else:
            h.pop(u'k')
            h.setdefault(u'k', x)
    elif where == 'list':
        if rng.random() < 0.5:
            h[0] = x
        else:
            h[:] = [x]
    else:
        h.attributes = x
    if kind == 'bytes':
        x.append(51)
        want = bytearray(b'123')
    elif kind == 'map':
        x[u'new'] = want = 5
    elif kind == 'clip':
        x.length = want = 7
    else:
        x.append(None)
        want = 1
    def state(o):
        return o if kind == 'bytes' else o.get(u'new') if kind == 'map' else o.length if kind == 'clip' else len(o)
    what = '%s entry of a %s %s replaced by an equal one (%s)' % (kind, how, where, op)
    if now(f) is not x:
        raise Violation('%s: it still gives the old one' % what)
    h = x = None
    collect()
    for k in range(2):
        if state(now(f)) != want:
            raise Violation('%s, then changed: it is %r, not %r' % (what, state(now(f)), want))
        out = scen.save(ctx, f, rng.choice(['little', 'big']))
    with libio.open_bytes(ctx.avb, out, ctx.mode) as h:
        if state(now(h)) != want:
            raise Violation('%s, then changed: %r is saved, not %r' % (what, state(now(h)), want))
    ctx.count('equal_values')
    ctx.seen('equal', kind, how, where, op)


WORKLOADS = {'many': many, 'equal': equal_case, 'troubled': troubled, 'history': history, 'single': single, 'inplace': inplace, 'sample': sample}
PLANS['quick'].append(('pure', 'sample', 14, 7))
PLANS['quick'].append(('ext', 'sample', 14, 7))
PLANS['thorough'].append(('pure', 'sample', 140, 14))
PLANS['thorough'].append(('ext', 'sample', 140, 14))
