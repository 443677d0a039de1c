#!/usr/bin/env python3
"""mkseed.py [ID…]: writes /verif/seeded/<id>/ for the planted bugs described in tools/seeds/*.py.
A bug is a list of textual replacements in files of /repo's HEAD; lines it removes must be lines of the original commit."""
import difflib, glob, json, os, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BASE = subprocess.run(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[-1]
PRELUDE = '''import sys, os, io, gc, struct, tempfile, shutil, datetime, uuid, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
import avb, avb.utils, avb.core, avb.mobid, avb.ioctx
import avb.file
avb.AVBFile = avb.file.AVBFile
SAMPLE = os.path.join(os.getcwd(), 'tests', 'test_files', 'test_file_01.avb')
TMP = tempfile.mkdtemp()
def path(name='out.avb'):
    return os.path.join(TMP, name)
def save(f, name='out.avb', order='little'):
    f.write(path(name), order)
    return path(name)
def reopen(f, order='little', ext=True, name='out.avb'):
    data = open(save(f, name, order), 'rb').read()
    return avb.AVBFile(io.BytesIO(data), use_ext=ext)
def expect(got, want, what=''):
    if got != want:
        raise SystemExit('%s: got %r, expected %r' % (what, got, want))
def refused(fn, what=''):
    try:
        fn()
    except Exception as e:
        return e
    raise SystemExit('%s: was not refused' % what)
try:
'''
SPECS = {}
_blame = {}


def S(id, prop, py, needs, breaks, edits, demo):
    assert id not in SPECS, id
    SPECS[id] = dict(prop=prop, py=py, needs=needs, breaks=breaks, edits=edits, demo=demo)


def old_lines(path):
    if path not in _blame:
        out = subprocess.run(['git', '-C', REPO, 'blame', '-s', 'HEAD', '--', path], capture_output=True, text=True).stdout
        _blame[path] = [l.startswith('^') for l in out.split('\n')]
    return _blame[path]


def make(id, s):
    files = {}
    for name, old, new in s['edits']:
        p = name if '/' in name else 'src/avb/' + name
        text = files.setdefault(p, subprocess.run(['git', '-C', REPO, 'show', 'HEAD:' + p], capture_output=True, text=True, check=True).stdout)
        if text.count(old) != 1:
            print('%s: %r occurs %d times in %s' % (id, old[:60], text.count(old), p)); return
        files[p] = text.replace(old, new)
    diff = ''
    own = 0
    orig = 0
    for p, text in sorted(files.items()):
        a = subprocess.run(['git', '-C', REPO, 'show', 'HEAD:' + p], capture_output=True, text=True).stdout.split('\n')
        b = text.split('\n')
        for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a, b, autojunk=False).get_opcodes():
            if tag in ('replace', 'delete'):
                for i in range(i1, i2):
                    if a[i].strip():
                        if old_lines(p)[i]:
                            orig += 1
                        else:
                            own += 1
        d = list(difflib.unified_diff([l + '\n' for l in a[:-1]], [l + '\n' for l in b[:-1]], 'a/' + p, 'b/' + p))
        diff += 'diff --git a/%s b/%s\n' % (p, p) + ''.join(d)
    if own:
        print('%s: removes %d lines my own commits added' % (id, own)); return
    if not orig:
        print('%s: only adds lines' % id)
    out = os.path.join(ROOT, 'seeded', id)
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    py = {'pure': '/opt/venv/bin/python', 'ext': '/opt/venv-ext/bin/python'}[s['py']]
    open(out + '/demo.sh', 'w').write('#!/bin/bash\n# run in the root of the repository\nexec %s "$(dirname "$0")/demo.py"\n' % py)
    body = s['demo'].strip('\n')
    open(out + '/demo.py', 'w').write(PRELUDE + '\n'.join('    ' + l if l.strip() else '' for l in body.split('\n')) +
        '\n    print("ok")\nfinally:\n    shutil.rmtree(TMP, ignore_errors=True)\n')
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)


if __name__ == '__main__':
    sys.modules['mkseed'] = sys.modules['__main__']
    for f in sorted(glob.glob(os.path.join(ROOT, 'tools', 'seeds', '*.py'))):
        exec(compile(open(f).read(), f, 'exec'), {'S': S})
    for id in sys.argv[1:] or SPECS:
        make(id, SPECS[id])
    print(len(SPECS), 'specs')
