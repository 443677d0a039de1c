# -*- coding: utf-8 -*-
"""Worker-side machinery: seeded cases, counters, violations, watchdog.

A check is a module vf/cXX.py with
    PROPERTY, LEVEL, RULE, ASSUMPTIONS
    PLANS   = {'quick': [...], 'thorough': [...]}   list of (mode, workload, cases, shards)
    WORKLOADS = {name: fn(ctx, rng, n)}              one case each
    REQUIRED = {counter: minimum}                    evidence the monitor was reached
run by vf/run.py, which starts one worker process per (mode, workload, shard).
"""
import gc
import hashlib
import io
import json
import os
import pathlib
import random
import resource
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


class Violation(Exception):
    """the property is broken; args[0] says how, args[1] (optional) a mechanism key"""

    @property
    def key(self):
        return self.args[1] if len(self.args) > 1 else None


class HarnessError(Exception):
    """the check itself is wrong: never a verdict"""


class CaseTimeout(Exception):
    pass


class Skip(Exception):
    """the case turned out not to be applicable (counted)"""


CPU_LIMIT = 40.0   # user CPU seconds for one case; normal cases take well under one


def rng_for(*parts):
    return random.Random(hashlib.sha256(repr(parts).encode('utf-8')).hexdigest())


class Ctx(object):
    def __init__(self, mode, tier, seed, avb=None):
        self.mode = mode
        self.tier = tier
        self.seed = seed
        self.avb = avb
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.findings = {}
        self.evals = 0
        self.tmp = None
        self.replaying = False

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def seen(self, *key):
        """a distinct non-trivial case/state by its key"""
        self.distinct.add(hashlib.md5(repr(key).encode('utf-8')).hexdigest()[:16])

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(str(s)[:400])

    def require(self, cond, msg, key=None):
        if not cond:
            raise Violation(msg, key) if key else Violation(msg)

    def path(self, name):
        return os.path.join(self.tmp, name)


def named(p, k):
    """a path in one of the ways Python programs name a file"""
    k %= 5
    if k == 1:
        return pathlib.Path(p)
    if k == 2:
        return os.fsencode(p)
    if k == 3:
        return os.path.relpath(p)
    if k == 4:
        return os.path.join(os.path.dirname(p), '.', os.path.basename(p))
    return p


class Quiet(object):
    """the library prints chunk dumps and tracebacks on read errors"""

    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = io.StringIO()
        return sys.stdout

    def __exit__(self, *a):
        sys.stdout = self.o


def in_library(tb):
    """did the exception come out of the library (innermost frame of interest)?"""
    last = None
    for f in traceback.extract_tb(tb):
        fn = os.path.abspath(f.filename)
        if fn.startswith(SRC) or '_ext.pyx' in fn:
            last = 'lib'
        elif fn.startswith(HERE):
            last = 'harness'
    return last == 'lib'


def _alarm(signum, frame):
    raise CaseTimeout('case exceeded %s s of user CPU' % CPU_LIMIT)


def run_case(ctx, wl, fn, n):
    rng = rng_for(ctx.seed, wl, n)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        with Quiet():
            try:
                fn(ctx, rng, n)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        ctx.evals += 1
    except Skip:
        ctx.count('skipped')
    except Violation as e:
        ctx.evals += 1
        return (str(e.args[0]), e.key)
    except CaseTimeout as e:
        ctx.evals += 1
        return ('does not terminate: %s (a case normally takes milliseconds)\n%s' % (e, traceback.format_exc()[-1500:]), None)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        lib = in_library(sys.exc_info()[2])
        if not lib and isinstance(e, (OSError, MemoryError, ImportError, HarnessError)):
            raise
        # not raised on the unchanged tree, in the library or on what it returned
        ctx.evals += 1
        return ('unexpected %s %s: %s\n%s' % (type(e).__name__, 'from the library' if lib else
                'while interpreting what the library returned', e, traceback.format_exc()[-1800:]), None)
    return None


def worker(module, mode, tier, seed, wl, lo, hi, out, so=None, deadline=None, need_avb=True, maxviol=3):
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if os.environ.get('VF_NO_RLIMIT') != '1':
        lim = 8 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, resource.getrlimit(resource.RLIMIT_AS)[1]))
    avb = None
    if need_avb:
        from . import loader
        avb = loader.load('ext' if mode.startswith('ext') else 'pure', so)
    signal.signal(signal.SIGVTALRM, _alarm)
    ctx = Ctx(mode, tier, seed, avb)
    res = {'complete': True}
    with tempfile.TemporaryDirectory(prefix='vf') as tmp:
        ctx.tmp = tmp
        init = getattr(module, 'init', None)
        if init:
            init(ctx)
        fn = module.WORKLOADS[wl]
        for n in range(lo, hi):
            if deadline and time.time() > deadline:
                res['complete'] = False
                ctx.count('cases_not_run_for_time', hi - n)
                break
            with open(out + '.cur', 'w') as f:
                f.write(str(n))
            v = run_case(ctx, wl, fn, n)
            if v:
                ctx.violations.append(dict(workload=wl, case=n, mode=mode, seed=seed, message=v[0], key=v[1]))
                # go on after known mechanisms, stop after a few others
                if len(ctx.violations) >= 40 or len([x for x in ctx.violations if not x['key']]) >= maxviol:
                    break
        fin = getattr(module, 'finish', None)
        if fin:
            fin(ctx)
    res.update(counters=ctx.counters, distinct=sorted(ctx.distinct), samples=ctx.samples,
               violations=ctx.violations, evals=ctx.evals, wall=time.time() - t0)
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(out + '.tmp', out)


def collect():
    """garbage collection that also works for PyPy's weak references"""
    gc.collect()
    if sys.implementation.name == 'pypy':
        gc.collect()
