#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""Runs one check: starts the workers, merges what they observed, writes evidence, decides.

    run.py C01 [quick|thorough] [--replay FILE] [--only WORKLOAD] [--jobs N]

exit 0: held on everything observed;  1: VIOLATION;  2: error or inconclusive.
"""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from vf import extbuild  # noqa: E402

PY = {'pure': '/opt/venv/bin/python', 'ext': '/opt/venv-ext/bin/python', 'extpure': '/opt/venv-ext/bin/python',
      'extasan': '/opt/venv-ext/bin/python', 'vt': '/opt/veriftools/pyvenv/bin/python'}


def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    d = json.loads(line)
                    if d.get('status') == 'known' and d['property'] == prop:
                        out[d['key']] = d
    return out


def libsan():
    r = []
    for n in ('libasan.so', 'libubsan.so'):
        r.append(subprocess.run(['g++', '-print-file-name=' + n], stdout=subprocess.PIPE).stdout.decode().strip())
    return ' '.join(r)


def main():
    argv = sys.argv[1:]
    prop = argv.pop(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if argv and argv[0] in ('quick', 'thorough'):
        tier = argv.pop(0)
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    replay = only = None
    jobs = min(8, os.cpu_count() or 1)
    while argv:
        a = argv.pop(0)
        if a == '--replay':
            replay = json.load(open(argv.pop(0)))
        elif a == '--only':
            only = argv.pop(0)
        elif a == '--jobs':
            jobs = int(argv.pop(0))
    t0 = time.time()
    module = importlib.import_module('vf.' + prop.lower())
    plan = module.PLANS[tier]
    if replay:
        seed = replay['seed']
        plan = [(replay['mode'], replay['workload'], None, 1)]
    if only:
        plan = [p for p in plan if p[1] == only]
    budget = float(os.environ.get('VF_BUDGET', 0)) or {'quick': 420, 'thorough': 3000}[tier]
    workdir = tempfile.mkdtemp(prefix='vf%s' % prop)
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    try:
        return go(prop, tier, seed, module, plan, replay, jobs, budget, workdir, evdir, t0)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def go(prop, tier, seed, module, plan, replay, jobs, budget, workdir, evdir, t0):
    so = {}
    for mode in set(p[0] for p in plan):
        if mode in ('ext', 'extpure', 'extasan'):
            try:
                so[mode] = extbuild.build('asan' if mode == 'extasan' else 'plain')
            except extbuild.BuildError as e:
                print('ERROR the native extension does not build:\n%s' % e)
                return 2
    prepare = getattr(module, 'prepare', None)
    extra = prepare(tier, workdir) if prepare else None
    deadline = t0 + budget
    tasks = []
    for mode, wl, cases, shards in plan:
        if replay:
            ranges = [(replay['case'], replay['case'] + 1)]
        else:
            per = -(-cases // shards)
            ranges = [(lo, min(cases, lo + per)) for lo in range(0, cases, per)]
        for lo, hi in ranges:
            tasks.append((mode, wl, lo, hi))
    running = []
    done = []
    problems = []
    n = 0
    queue = list(tasks)
    stop = False
    while queue or running:
        while queue and len(running) < jobs and not stop:
            mode, wl, lo, hi = queue.pop(0)
            out = os.path.join(workdir, 'r%d.json' % n)
            n += 1
            a = dict(module=prop.lower(), mode=mode, tier=tier, seed=seed, wl=wl, lo=lo, hi=hi, out=out,
                     so=so.get(mode), deadline=deadline, need_avb=getattr(module, 'NEED_AVB', True))
            env = dict(os.environ, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                       PYTHONIOENCODING='utf-8', LC_ALL='C.UTF-8', VF_EXTRA=json.dumps(extra))
            env.pop('TZ', None)
            if getattr(module, 'NO_RLIMIT', False):
                env['VF_NO_RLIMIT'] = '1'
            if mode == 'extasan':
                env['LD_PRELOAD'] = libsan()
                env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:halt_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=2048:detect_container_overflow=1'
                env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:abort_on_error=1'
                env['VF_NO_RLIMIT'] = '1'
            log = open(out + '.log', 'wb')
            p = subprocess.Popen([PY[mode], '-m', 'vf.work', json.dumps(a)], env=env, cwd=VERIF,
                                 stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
            running.append((p, out, (mode, wl, lo, hi), log))
        if stop and not running:
            break
        time.sleep(0.02)
        for r in running[:]:
            p, out, t, log = r
            rc = p.poll()
            if rc is None:
                if time.time() > deadline + 120:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    rc = 'timeout'
                else:
                    continue
            running.remove(r)
            log.close()
            if os.path.exists(out):
                with open(out) as f:
                    d = json.load(f)
                d['task'] = t
                done.append(d)
                if [v for v in d['violations'] if not v['key']] and tier == 'quick':
                    stop = True
            else:
                text = open(out + '.log', 'rb').read().decode('utf-8', 'replace')
                cur = None
                try:
                    cur = int(open(out + '.cur').read())
                except (IOError, OSError, ValueError):
                    pass
                crash = (isinstance(rc, int) and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)
                         ) or 'AddressSanitizer' in text or 'runtime error:' in text
                if crash and cur is not None and t[0] in ('ext', 'extasan'):
                    done.append(dict(task=t, violations=[dict(workload=t[1], case=cur, mode=t[0], seed=seed, key=None,
                                                              message='the process died (%s)\n%s' % (rc, text[-6000:]))],
                                     counters={}, distinct=[], samples=[], evals=1, wall=0, complete=False))
                else:
                    problems.append('worker %r case %r ended with %r\n%s' % (t, cur, rc, text[-2500:]))
    counters, distinct, samples, evals, viol = {}, set(), [], 0, []
    for d in done:
        evals += d['evals']
        for k in d['counters']:
            counters[k] = counters.get(k, 0) + d['counters'][k]
        distinct.update(d['distinct'])
        for s in d['samples']:
            if len(samples) < 8 and s not in samples:
                samples.append(s)
        viol += d['violations']
    post = getattr(module, 'post', None)
    if post and not replay:
        viol += post(counters, workdir, seed) or []
    known = known_findings(prop)
    new = [v for v in viol if v['key'] not in known]
    old = {}
    for v in viol:
        if v['key'] in known:
            old.setdefault(v['key'], []).append(v)
    missing = []
    if not replay and not new:
        for k, m in getattr(module, 'REQUIRED', {}).items():
            if counters.get(k, 0) < m:
                missing.append('%s=%d (needs %d)' % (k, counters.get(k, 0), m))
        if not evals:
            missing.append('no case ran')
    ev = dict(property=prop, tier=tier, seed=seed, level=module.LEVEL,
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=module.RULE,
                            samples=samples or ['none'], observed=counters,
                            per_mode=per_mode(done), incomplete=[list(d['task']) for d in done if not d.get('complete', True)],
                            problems=[p[:300] for p in problems],
                            known_findings=dict((k, len(old[k])) for k in old)),
              assumptions=list(module.ASSUMPTIONS), wall_s=round(time.time() - t0, 2), violations=len(new))
    if not replay:
        with open(os.path.join(evdir, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    for k in sorted(old):
        print('KNOWN-FINDING: property=%s %s (%d cases observed)' % (prop, known[k]['what'], len(old[k])))
    if new:
        rd = os.path.join(evdir, 'replay')
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(new[:3]):
            rp = os.path.join(rd, '%s-%s-%s-%s.json' % (prop, v['mode'], v['workload'], v['case']))
            with open(rp, 'w') as f:
                json.dump(v, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(rp, VERIF)))
            print('  workload %s case %s mode %s key %s\n  %s' % (
                v['workload'], v['case'], v['mode'], v['key'], v['message'].replace('\n', '\n  ')[:3000]))
        return 1
    if problems or missing:
        for p in problems:
            print('ERROR', p)
        if missing:
            print('INCONCLUSIVE: the monitors observed too little:', ', '.join(missing))
        return 2
    print('%s %s: held; %d cases, %d distinct, %.1f s; %s' % (
        prop, tier, evals, len(distinct), time.time() - t0,
        ' '.join('%s=%s' % (k, counters[k]) for k in sorted(counters))[:1500]))
    return 0


def per_mode(done):
    out = {}
    for d in done:
        m = '%s/%s' % (d['task'][0], d['task'][1])
        out[m] = out.get(m, 0) + d['evals']
    return out


if __name__ == '__main__':
    sys.exit(main())
