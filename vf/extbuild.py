# -*- coding: utf-8 -*-
"""Builds the native reader from /repo's working tree, outside /repo.

build('plain') / build('asan') return the path of a loadable extension for PyPy.
Keyed by the contents of the native sources and setup.py; the in-place build made by
/opt/vp/build.sh is reused when its stamp matches the current contents.
Runs under any Python 3.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(HERE), 'build')
SHIM = os.path.join(HERE, 'native', 'shim.cpp')
PYPY = '/opt/venv-ext/bin/python'
SAN_FLAGS = ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
             '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR']


class BuildError(Exception):
    pass


def sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
        for f in files:
            if f.rsplit('.', 1)[-1] in ('pyx', 'pxd', 'pxi', 'c', 'cpp', 'h', 'hpp'):
                p = os.path.join(root, f)
                if f.endswith('.cpp') and os.path.exists(p[:-4] + '.pyx'):
                    continue
                out.append(p)
    return sorted(out)


def key():
    h = hashlib.sha256()
    for p in [os.path.join(REPO, 'setup.py')] + sources():
        h.update(os.path.relpath(p, REPO).encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    with open(SHIM, 'rb') as f:
        h.update(f.read())
    return h.hexdigest()[:20]


def vp_stamp():
    """the stamp build_ext.sh would write for the current contents"""
    script = r'''cd "$1" || exit 1
    for f in setup.py setup.cfg pyproject.toml; do [ -f $f ] && echo $f; done >/dev/null
    {
    for f in setup.py setup.cfg pyproject.toml; do [ -f $f ] && echo $f; done
    find src -type f \( -name '*.pyx' -o -name '*.pxd' -o -name '*.pxi' -o -name '*.c' \
        -o -name '*.cpp' -o -name '*.h' -o -name '*.hpp' \) |
        while read -r f; do [ -f "${f%.cpp}.pyx" ] && [ "${f%.cpp}" != "$f" ] || echo "$f"; done
    } | LC_ALL=C sort | tr '\n' '\0' | xargs -0 sha256sum | sha256sum'''
    return subprocess.run(['bash', '-c', script, 'x', REPO], stdout=subprocess.PIPE,
                          stderr=subprocess.DEVNULL).stdout.decode().strip()


def inplace():
    try:
        with open(os.path.join(REPO, 'build', 'vp_ext.sha256')) as f:
            stamp = f.read().strip()
    except (IOError, OSError):
        return None
    so = glob.glob(os.path.join(REPO, 'src', 'avb', '_ext.pypy*.so'))
    if len(so) == 1 and stamp and stamp == vp_stamp():
        return so[0]
    return None


def build(flavour='plain', quiet=True):
    if flavour == 'plain':
        so = inplace()
        if so:
            return so
    d = os.path.join(BUILD, 'ext-%s-%s' % (flavour, key()))
    so = os.path.join(d, '_ext.so')
    if os.path.exists(so):
        return so
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='extbuild', dir=d)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    env.pop('PYTHONPATH', None)
    env.pop('LD_PRELOAD', None)
    try:
        for p in sources():
            rel = os.path.relpath(p, os.path.join(REPO, 'src'))
            os.makedirs(os.path.dirname(os.path.join(tmp, rel)), exist_ok=True)
            shutil.copy(p, os.path.join(tmp, rel))
        open(os.path.join(tmp, 'avb', '__init__.py'), 'w').close()
        run([PYPY, '-m', 'cython', '--cplus', 'avb/_ext.pyx', '-o', 'avb/_ext.cpp'], tmp, env)
        inc = subprocess.run([PYPY, '-c', 'import sysconfig; print(sysconfig.get_paths()["include"])'],
                             stdout=subprocess.PIPE, check=True, env=env).stdout.decode().strip()
        flags = ['-O2', '-g0'] if flavour == 'plain' else SAN_FLAGS
        cc = ['g++', '-fPIC', '-w'] + flags + ['-I', inc, '-I', 'avb']
        if flavour == 'plain':
            run(cc + ['-shared', 'avb/_ext.cpp', '-o', 'out.so'], tmp, env)
        else:
            run(cc + ['-DPyPyObject_GetBuffer=vf_GetBuffer', '-DPyPyBuffer_Release=vf_Release', '-c', 'avb/_ext.cpp', '-o', 'ext.o'], tmp, env)
            run(cc + ['-c', SHIM, '-o', 'shim.o'], tmp, env)
            wrap = ['-Wl,--wrap=' + n for n in ('_Znwm', '_Znam', 'malloc', 'calloc', 'realloc')]
            run(cc + ['-shared', 'ext.o', 'shim.o', '-o', 'out.so'] + wrap, tmp, env)
        os.rename(os.path.join(tmp, 'out.so'), so)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return so


def run(cmd, cwd, env):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode('utf-8', 'replace')[-3000:]))


if __name__ == '__main__':
    print(build(*(sys.argv[1:] or ['plain'])))
