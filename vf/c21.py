# -*- coding: utf-8 -*-
"""C21: files that are open at the same time do not affect each other"""
import datetime
import io
import json
import os
import random
import resource
import subprocess
import sys
import threading

from . import c04, c06, c07, common, edit, fmt, hostile, libio
from .common import HarnessError, Violation, collect

PROPERTY = 'C21'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: several sessions on files of their own, interleaved between operations, inside operations (at library '
             'calls chosen by a profiling hook) and in threads; each session is compared with its own model; ThreadSanitizer on the native readers')
LEVEL_NOTE = 'Sampling of sessions and interleavings; races between native readers are looked for by ThreadSanitizer in a C++ driver of them.'
RULE = ('interleave: operations of 2 to 4 sessions (edit, read, save, reopen, failing operations, header fields, listing) in random order. nested: at '
        'random library calls inside an operation of one session a whole operation of another one runs. threads: one thread per '
        'session with a tiny switch interval. Each session is compared with its model after its operations and at its end, content and saved '
        'file. parallel: threads that read large objects of files of '
        'their own with the native reader, compared with the pure one. native: the C++ readers in four threads under ThreadSanitizer. Distinct: what was interleaved with what, and for nested the library function it happened in.')
ASSUMPTIONS = ['objects are not handed from one session to another', 'one file is used by one thread at a time']
PLANS = {'quick': [('pure', 'interleave', 120, 1), ('ext', 'interleave', 120, 1), ('pure', 'nested', 300, 2), ('ext', 'nested', 200, 2),
                   ('pure', 'threads', 60, 1), ('ext', 'threads', 60, 1),
                   ('ext', 'parallel', 60, 2), ('vt', 'native', 2, 2)],
         'thorough': [('pure', 'interleave', 3000, 4), ('ext', 'interleave', 3000, 4), ('pure', 'nested', 8000, 8), ('ext', 'nested', 6000, 8),
                      ('pure', 'threads', 1500, 4), ('ext', 'threads', 1500, 4),
                      ('ext', 'parallel', 1500, 4), ('vt', 'native', 24, 8)]}
REQUIRED = {'operations': 4000, 'injections': 1500, 'thread_alternations': 150, 'sessions_verified': 1200, 'troubles': 100, 'parallel_reads': 2000, 'parallel_switches': 100}


class Session(object):
    """a file, what must be in it, and operations on it"""
    OPS = ['step'] * 5 + ['check', 'save', 'save', 'reopen', 'meta', 'trouble', 'listing', 'collect', 'create']

    def __init__(self, ctx, rng, tag, like=None):
        self.ctx, self.rng, self.tag = ctx, random.Random(rng.getrandbits(64)), tag
        self.counters = {}
        rng = self.rng
        self.path = os.path.join(ctx.tmp, 's%s.avb' % tag)
        self.use_ext = rng.random() < 0.8 and ctx.mode != 'extpure'
        self.bad = None
        if like is not None:
            # the same file opened a second time
            self.g, data, self.bad, self.bad_how, self.bo = like.pristine()
            if rng.random() < 0.5:
                # another file of the same shape: every number in it differs, nothing else
                sibling(self.g)
                data = fmt.build_file(self.g, self.bo)
                self.bad = None
                like = None
        else:
            self.g = libio.rand_graph(rng, rng.randint(2, 8), want=[b'ATTR', b'SEQU'], maxlist=3)
            self.bo = rng.choice(['little', 'little', 'big'])
            data, self.bad, self.bad_how = c07.damaged_file(self.g, rng, self.bo)
        self.first = data
        self.made_new = like is None and rng.random() < 0.25
        if self.made_new:
            self.f = ctx.avb.open()
            self.f.content = libio.Builder(self.f).graph(self.g)
            self.bad = None
        else:
            self.f = self.open(data, like)
        self.e = edit.Editor(ctx, self.f, self.g, rng, hold=rng.choice([0.0, 0.3, 0.9]))
        self.e.ctx = self
        self.meta_set = None

    # the editor counts here: sessions may run in threads
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def pristine(self):
        g = fmt.parse_file(self.first, False)
        graph = fmt.Graph()
        graph.objs, graph.root = self.g0
        import copy
        graph.objs = copy.deepcopy(graph.objs)
        return graph, self.first, self.bad, self.bad_how, self.bo

    def open(self, data, like=None):
        import copy
        self.g0 = (copy.deepcopy(self.g.objs), self.g.root)
        if like is not None and like.by_path or like is None and self.rng.random() < 0.5:
            self.by_path = True
            p = like.src if like is not None else self.path + '.in'
            if like is None:
                with open(p, 'wb') as h:
                    h.write(data)
            self.src = p
            return self.ctx.avb.open(p, use_ext=self.use_ext)
        self.by_path = False
        return libio.open_bytes(self.ctx.avb, data, 'ext' if self.use_ext else 'extpure')

    def fail(self, what):
        raise Violation('session %s: %s' % (self.tag, what))

    def op(self, name=None):
        name = name or self.rng.choice(self.OPS)
        getattr(self, 'do_' + name)()
        self.count('operations')
        return name

    def do_step(self):
        self.e.step()

    def do_check(self):
        d = fmt.compare(self.g, libio.content(self.f))
        if d:
            self.fail('content differs after %s: %s' % (self.e.log[-4:], '; '.join(d)))

    def save(self):
        bo = self.rng.choice(['little', 'big'])
        self.f.write(self.path, bo)
        with open(self.path, 'rb') as h:
            out = h.read()
        try:
            pf = fmt.parse_file(out)
        except fmt.FormatError as x:
            self.fail('the file written is not sound: %s' % x)
        if pf.bo != bo:
            self.fail('the file written %s endian is %s endian' % (bo, pf.bo))
        d = fmt.compare(self.g, pf.graph)
        if d:
            self.fail('the file written after %s differs: %s' % (self.e.log[-4:], '; '.join(d)))
        return out, bo

    def do_save(self):
        self.save()

    def do_reopen(self):
        out, bo = self.save()
        self.held_meta(self.f)
        self.e.held.clear()
        if not self.made_new:
            self.f.close()
        self.made_new = False
        self.f = self.e.f = libio.open_bytes(self.ctx.avb, out, 'ext' if self.use_ext else 'extpure')
        self.e.b = libio.Builder(self.f)
        self.bad = None
        self.held_meta(self.f, 2)
        if self.meta_set:
            self.meta_set = (self.f.creator_version, self.f.last_save)

    def do_meta(self):
        v = u'version %s %d' % (self.tag, self.rng.randint(0, 999))
        t = datetime.datetime(self.rng.randint(1995, 2030), 5, 17, 3, 4, self.rng.randint(0, 59))
        self.f.creator_version, self.f.last_save = v, t
        self.meta_set = (v, t)

    def held_meta(self, f, slack=0):
        if self.meta_set is None:
            return
        v, t = self.meta_set
        if f.creator_version.rstrip() != v.rstrip() or f.last_save != t:
            self.fail('creator_version and last_save are %r and %r, were set to %r and %r' % (f.creator_version, f.last_save, v, t))

    def do_trouble(self):
        if self.bad is None:
            if self.rng.random() < 0.5:
                try:
                    self.f.write(os.path.join(self.ctx.tmp, 'no', 'dir'))
                except EnvironmentError:
                    self.count('troubles')
            return
        try:
            self.f.read_object(self.bad)
        except Exception:
            self.count('troubles')
            return
        self.fail('a damaged object (%s) was read' % self.bad_how)

    def do_listing(self):
        if self.made_new or self.bad is None:
            return
        p = fmt.parse_file(self.first, False)
        n = 0
        for k, c in enumerate(self.f.chunks()):
            n += 1
        if n != p.count + 1:
            self.fail('%d chunks are listed, the file has %d objects' % (n, p.count))

    def do_collect(self):
        self.e.held.clear()
        collect()

    def do_create(self):
        o = self.f.create.Composition()
        if o.root is not self.f:
            self.fail('a new object belongs to another file')
        self.e.new()

    def verify(self):
        self.held_meta(self.f)
        self.do_check()
        a, bo = self.save()
        self.do_check()
        self.count('sessions_verified')

    def close(self):
        for k, n in self.counters.items():
            self.ctx.count(k, n)
        if not self.made_new:
            self.f.close()


def sibling(g):
    for o in g.objs.values():
        for k, v in list(o.f.items()):
            if type(v) is int and not k.startswith('_'):
                o.f[k] = v ^ 1
                if not edit.valid(o):
                    o.f[k] = v


def sessions(ctx, rng, k):
    out = []
    for i in range(k):
        like = None
        if out and rng.random() < 0.4 and not out[-1].made_new:
            like = out[-1]
        out.append(Session(ctx, rng, '%d' % i, like))
    return out


def interleave(ctx, rng, n):
    ss = sessions(ctx, rng, rng.randint(2, 4))
    log = []
    try:
        for k in range(rng.randint(6, 30)):
            s = rng.choice(ss)
            log.append((s.tag, s.op()))
        if rng.random() < 0.4:
            s = ss.pop(rng.randrange(len(ss)))
            s.verify()
            s.close()
        rng.shuffle(ss)
        for s in ss:
            s.verify()
        ctx.seen('interleave', log[:8])
    finally:
        for s in ss:
            s.close()


class Inject(object):
    """runs fn() at library calls, after every gap() of them"""

    def __init__(self, fn, gap):
        self.fn, self.gap = fn, gap
        self.left = gap()
        self.error = None
        self.where = []

    def __call__(self, frame, event, arg):
        if event not in ('call', 'return') or self.error is not None:
            return
        code = frame.f_code
        if not code.co_filename.startswith(common.SRC):
            return
        self.left -= 1
        if self.left > 0:
            return
        self.left = self.gap()
        sys.setprofile(None)
        try:
            self.fn()
            self.where.append('%s:%s' % (os.path.basename(code.co_filename), code.co_name))
        except BaseException as e:
            self.error = e
        sys.setprofile(self if self.error is None else None)

    def run(self, op):
        sys.setprofile(self)
        try:
            return op()
        finally:
            sys.setprofile(None)
            if self.error is not None:
                raise self.error


def nested(ctx, rng, n):
    a, b = ss = sessions(ctx, rng, 2)
    big = [0]
    try:
        for k in range(rng.randint(2, 6)):
            outer = rng.choice(['save', 'check', 'reopen', 'trouble', 'step', 'step', 'create', 'listing'])
            scale = rng.choice([3, 10, 40, 200])
            left = [rng.choice([1, 1, 2, 5])]
            done = []

            def inner():
                if left[0] > 0:
                    left[0] -= 1
                    done.append(b.op(rng.choice(['step', 'step', 'step', 'save', 'check', 'trouble', 'meta', 'create', 'listing'])))
            inj = Inject(inner, lambda: rng.randint(1, scale))
            try:
                inj.run(lambda: a.op(outer))
            except (Violation, HarnessError):
                raise
            except Exception as e:
                raise Violation('%s of one file, while %s of another one happened inside it (in %s), fails: %s: %s' % (
                    outer, done, inj.where, type(e).__name__, e))
            ctx.count('injections', len(done))
            for w, d in zip(inj.where, done):
                ctx.seen('nested', outer, d, w)
            if rng.random() < 0.5:
                # nothing keeps the objects of the inner file
                b.do_collect()
                b.do_check()
            a, b = (a, b) if rng.random() < 0.7 else (b, a)
        for s in ss:
            s.verify()
    finally:
        for s in ss:
            s.close()


def threads(ctx, rng, n):
    ss = sessions(ctx, rng, rng.randint(2, 3))
    errors, order = [], []
    start = threading.Barrier(len(ss))
    steps = rng.randint(8, 25)
    # garbage is collected by one thread at a time
    lock = threading.Lock()

    def run(s):
        try:
            start.wait(60)
            for k in range(steps):
                if errors:
                    return
                order.append(s.tag)
                name = s.rng.choice(s.OPS)
                if name == 'collect':
                    with lock:
                        s.op(name)
                else:
                    s.op(name)
                order.append(s.tag)
            s.verify()
        except BaseException as e:
            errors.append((s, e, sys.exc_info()[2]))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6 if sys.implementation.name == 'pypy' else 1e-5)
    ts = [threading.Thread(target=run, args=(s,)) for s in ss]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    alt = sum(1 for x, y in zip(order, order[1:]) if x != y)
    ctx.count('thread_alternations', alt)
    ctx.count('thread_runs')
    ctx.seen('threads', ''.join(order))
    try:
        if errors:
            s, e, tb = errors[0]
            if isinstance(e, (Violation, HarnessError)):
                raise e
            import traceback
            raise Violation('session %s, in a thread next to others, fails: %s: %s\n%s' % (
                s.tag, type(e).__name__, e, ''.join(traceback.format_tb(tb))[-1500:]))
    finally:
        for s in ss:
            s.close()


# ------------------------------------------------- native readers in parallel
TSAN_DRIVER = r'''
#include <cstdint>
#include <cstddef>
#include <exception>
#include <string>
#include <vector>
#include "%(core)s"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <thread>
#include <atomic>
typedef int (*fn_t)(Buffer *);
%(wraps)s
static const struct { const char *name; fn_t fn; } TABLE[] = { %(table)s };
struct Rec { unsigned fn; std::vector<uint8_t> d; int r; long used; };
static void one(const Rec &rec, int &r, long &used) {
    uint32_t n = rec.d.size();
    uint8_t *p = (uint8_t *)malloc(n + 1);
    memcpy(p, rec.d.data(), n);
    Buffer b; memset(&b, 0, sizeof(b));
    %(init)s
    r = -2;
    try { r = TABLE[rec.fn].fn(&b); } catch (std::exception &e) { }
    used = (const uint8_t *)b.ptr - p;
    free(p);
}
int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "rb");
    int rounds = atoi(argv[2]);
    std::vector<Rec> recs;
    uint32_t h[2];
    while (fread(h, 4, 2, f) == 2) { Rec r; r.fn = h[0]; r.d.resize(h[1]); if (h[1] && fread(&r.d[0], 1, h[1], f) != h[1]) return 3; recs.push_back(r); }
    fclose(f);
    if (recs.empty()) return 3;
    for (auto &x : recs) one(x, x.r, x.used);
    std::atomic<uint64_t> runs(0), bad(0);
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; t++) ts.emplace_back([&, t] {
        for (int i = 0; i < rounds; i++)
            for (size_t k = 0; k < recs.size(); k++) {
                const Rec &x = recs[(k * (2 * t + 1) + i * 7) %% recs.size()];
                int r; long used;
                one(x, r, used);
                runs++;
                if (r != x.r || used != x.used) { if (!bad++) fprintf(stderr, "DRIVER-DIFFERS %%s: %%d, %%ld bytes used; alone %%d, %%ld\n", TABLE[x.fn].name, r, used, x.r, x.used); }
            }
    });
    for (auto &t : ts) t.join();
    printf("runs=%%llu\n", (unsigned long long)runs);
    return bad ? 5 : 0;
}
'''


def prepare(tier, workdir):
    """a driver of the C++ readers in threads under ThreadSanitizer"""
    found = c06.readers_source()
    if not found:
        return None
    core, names, init, wraps, table = found
    exe = os.path.join(workdir, 'tsan')
    with open(exe + '.cpp', 'w') as f:
        f.write(TSAN_DRIVER % dict(core=core, wraps=wraps, table=table, init=init))
    r = subprocess.run(['g++', '-w', '-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=thread', '-pthread', '-o', exe, exe + '.cpp'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return dict(error=r.stdout.decode('utf-8', 'replace')[:1500])
    return dict(exe=exe, names=names)


def unlimited():
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def native(ctx, rng, n):
    extra = json.loads(os.environ.get('VF_EXTRA') or 'null')
    if not extra or 'exe' not in extra:
        ctx.count('driver_not_buildable')
        ctx.sample('no driver: %s' % (extra or {}).get('error'))
        return
    recs = c06.corpus(rng, extra['names'], 6)
    p = ctx.path('corpus')
    with open(p, 'wb') as f:
        f.write(b''.join(recs))
    env = dict(os.environ, TSAN_OPTIONS='halt_on_error=1:exitcode=66')
    for wrap in ([], ['setarch', '-R']):
        try:
            r = subprocess.run(wrap + [extra['exe'], p, '20' if ctx.tier == 'quick' else '300'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, preexec_fn=unlimited)
        except OSError:
            continue
        err = r.stderr.decode('utf-8', 'replace')
        if 'unexpected memory mapping' not in err and 'CHECK failed: sanitizer' not in err:
            break
    else:
        ctx.count('driver_not_runnable')
        return
    if r.returncode and ('data race' in err or 'DRIVER-DIFFERS' in err or r.returncode < 0):
        raise Violation('the native readers in four threads (exit %d):\n%s' % (r.returncode, err[-4000:]))
    if r.returncode:
        raise HarnessError('threaded driver: exit %d %s' % (r.returncode, err[-1000:]))
    ctx.count('driver_runs', int(r.stdout.decode().strip().split('=')[1]))
    ctx.count('driver_files')
    ctx.seen('native', n)


def parallel(ctx, rng, n):
    """threads that do nothing but read objects, large ones too, each from a file of its own"""
    jobs = []
    for k in range(rng.randint(2, 4)):
        bed = hostile.Bed(rng, 'little')
        made = []
        for x in range(rng.randint(3, 10)):
            cls = rng.choice([b'ATTR', b'ATTR', b'CMPO', b'SEQU', b'PRCL', b'TKFX', b'SLCT', b'DIDD', b'CDCI', b'FXPS', b'SCLP', b'PRIT', b'MDES'])
            if cls not in fmt.KINDS:
                continue
            o = fmt.generate(cls, rng, bed.pick, maxlist=rng.choice([2, 20, 200]))
            if cls == b'ATTR':
                o.f['_items'] = o.f['_items'] + [[u'blob', 4, bytes(bytearray([rng.getrandbits(8)])) * rng.choice([10, 5000, 400000, 1500000])]]
            made.append(bed.add(cls, fmt.encode(o, 'little', dict((i, i) for i in fmt.refs_of(o)))))
        data = bed.data()
        alone = ctx.avb.open(io.BytesIO(data), use_ext=False)
        want = dict((i, repr(c04.view(alone.read_object(i)))) for i in made)
        jobs.append((data, want))
    errors, events = [], []
    start = threading.Barrier(len(jobs))
    rounds = 6

    def run(k):
        data, want = jobs[k]
        try:
            start.wait(60)
            for r in range(rounds):
                f = ctx.avb.open(io.BytesIO(data), use_ext=True)
                for i in want:
                    if errors:
                        return
                    events.append(k)
                    got = repr(c04.view(f.read_object(i)))
                    events.append(k)
                    if got != want[i]:
                        raise Violation('object %d, read while other threads read other files, is %.300s, alone it is %.300s' % (i, got, want[i]))
        except BaseException as e:
            errors.append((e, sys.exc_info()[2]))
    ts = [threading.Thread(target=run, args=(k,)) for k in range(len(jobs))]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6 if sys.implementation.name == 'pypy' else 1e-5)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    ctx.count('parallel_reads', len(events) // 2)
    ctx.count('parallel_switches', sum(1 for x, y in zip(events, events[1:]) if x != y))
    ctx.seen('parallel', ''.join(map(str, events))[:200])
    if errors:
        e, tb = errors[0]
        if isinstance(e, (Violation, HarnessError)):
            raise e
        import traceback
        raise Violation('reading in a thread next to others fails: %s: %s\n%s' % (type(e).__name__, e, ''.join(traceback.format_tb(tb))[-1500:]))


WORKLOADS = {'native': native, 'parallel': parallel, 'interleave': interleave, 'nested': nested, 'threads': threads}
