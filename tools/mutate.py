#!/usr/bin/env python3
"""mutate.py OUT N SEED: N random one-place changes of the original lines of /repo's source, one JSON line each
(file, line, function, what, diff). A measure of reach, not one of the checks."""
import ast, difflib, json, random, re, subprocess, sys
REPO = '/repo'
out, count, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]
only = sys.argv[4].split(',') if len(sys.argv) > 4 else None
rng = random.Random(seed)
FILES = ['__init__.py', 'attributes.py', 'bin.py', 'components.py', 'core.py', 'essence.py', 'file.py', 'interpolation.py', 'ioctx.py',
         'misc.py', 'mobid.py', 'trackgroups.py', 'utils.py', '_ext.pyx', '_ext_core.cpp']
muts = []
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
NAMES = [(r'(read|write|_)(s|u)(8|16|32|64)', lambda m: m.group(1) + {'s': 'u', 'u': 's'}[m.group(2)] + m.group(3))]


def python(name, text):
    lines = text.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = text.encode()

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, b = pos(n)
        return raw[a:b].decode()

    def put(n, new, what, fn):
        a, b = pos(n)
        t = (raw[:a] + new.encode() + raw[b:]).decode()
        if t != text:
            muts.append((name, n.lineno, n.end_lineno, fn, what, t))

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + [n.name]
        f = '.'.join(fn)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = seg(n.left), seg(n.comparators[0])
            put(n, '%s %s %s' % (l, CMP[type(n.ops[0])], r), 'compare', f)
        if isinstance(n, ast.BoolOp):
            put(n, (' or ' if isinstance(n.op, ast.And) else ' and ').join(seg(v) for v in n.values), 'bool', f)
            for v in n.values:
                put(n, seg(v), 'operand', f)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and n.test.lineno == n.test.end_lineno:
            put(n.test, 'not (%s)' % seg(n.test), 'negate', f)
            put(n.test, 'True', 'true', f)
            put(n.test, 'False', 'false', f)
        if isinstance(n, ast.Constant) and type(n.value) is int and len(fn) > 0:
            put(n, str(n.value + 1), 'const+1', f)
            put(n, str(n.value - 1), 'const-1', f)
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            put(n, str(not n.value), 'boolconst', f)
        if isinstance(n, ast.BinOp):
            o = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '*', ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&'}.get(type(n.op))
            if o and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                put(n, '%s %s %s' % (seg(n.left), o, seg(n.right)), 'arith', f)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n, seg(n.operand), 'unary', f)
        if len(fn) > 1 or (fn and not isinstance(n, ast.ClassDef)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                put(n, 'pass', 'delete', f)
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                put(n, 'pass', 'delete', f)
            if isinstance(n, ast.Raise):
                put(n, 'pass', 'noraise', f)
            if isinstance(n, (ast.Continue, ast.Break)):
                put(n, 'pass', 'nojump', f)
            if isinstance(n, ast.Return) and n.value is not None:
                put(n, 'return None', 'none', f)
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                a = [seg(x) for x in n.args]
                put(n, '%s(%s)' % (seg(n.func), ', '.join([a[1], a[0]] + a[2:])), 'swapargs', f)
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            s = seg(n)
            for pat, rep in NAMES:
                if '\n' not in s and re.search(pat, s):
                    put(n, re.sub(pat, rep, s), 'signed', f)
        if isinstance(n, ast.Slice):
            for part in (n.lower, n.upper):
                if part is not None:
                    put(part, '%s + 1' % seg(part), 'slice', f)
        for c in ast.iter_child_nodes(n):
            walk(c, fn)
    walk(ast.parse(text), [])


def native(name, text):
    lines = text.split('\n')
    fn = ''
    for i, l in enumerate(lines):
        m = re.match(r'(?:static |inline |cdef |def )+.*?(\w+)\(', l)
        if m:
            fn = m.group(1)
        s = l.strip()
        if not s or s.startswith(('#', '//')) or not l.startswith(' '):
            continue

        def put(new, what):
            if new != l:
                muts.append((name, i + 1, i + 1, fn, what, '\n'.join(lines[:i] + [new] + lines[i + 1:])))
        for a, b in ((' < ', ' <= '), (' == ', ' != '), (' > ', ' >= '), ('int16_t', 'uint16_t'), ('int32_t', 'uint32_t'), ('int8_t', 'uint8_t'), ('(uint32_t)', '(int32_t)'),
                     (' && ', ' || '), (' || ', ' && '), (' + ', ' - '), (' - ', ' + '), ('i++', 'i += 2'), ('true', 'false'), ('read_u16le', 'read_u8'),
                     ('read_bool', 'read_u8'), ('add_int', 'add_bool'), ('break;', '')):
            if a in l:
                put(l.replace(a, b, 1), 'c ' + a)
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])', l):
            v = int(m.group(1), 0)
            put(l[:m.start()] + str(v + 1) + l[m.end():], 'c const')
        if s.endswith(';') and re.match(r'(add_|read_|check|p->|\w+\.\w+\(|f->)', s):
            put('', 'c delete')
        if name.endswith('.pyx') and not s.endswith((':', ',')) and not s.startswith(('cdef', 'return', 'for', 'if')) and '(' in s and s.count('(') == s.count(')'):
            put(l[:len(l) - len(l.lstrip())] + 'pass', 'delete')


for name in FILES:
    if only and name not in only:
        continue
    p = 'src/avb/' + name
    text = open('%s/%s' % (REPO, p)).read()
    old = [l.startswith('^') for l in subprocess.run(['git', '-C', REPO, 'blame', '-s', 'HEAD', '--', p], capture_output=True, text=True).stdout.split('\n')]
    k = len(muts)
    (native if name.startswith('_ext') else python)(name, text)
    muts[k:] = [m + (text,) for m in muts[k:] if all(old[m[1] - 1:m[2]])]
rng.shuffle(muts)
QUOTA = {'attributes.py': 4, 'bin.py': 10, 'components.py': 8, 'core.py': 8, 'essence.py': 5, 'file.py': 9, 'interpolation.py': 8, 'ioctx.py': 8,
         'misc.py': 6, 'mobid.py': 7, 'trackgroups.py': 10, 'utils.py': 4, '_ext.pyx': 5, '_ext_core.cpp': 8}
taken, chosen = {}, []
for m in muts:
    if taken.get(m[0], 0) < count * QUOTA.get(m[0], 1) // 100 and (m[4] != 'swapargs' or rng.random() < 0.3):
        taken[m[0]] = taken.get(m[0], 0) + 1
        chosen.append(m)
print(len(muts), 'changes possible')
with open(out, 'w') as f:
    for i, (name, line, end, fn, what, t, text) in enumerate(chosen):
        p = 'src/avb/' + name
        d = ''.join(difflib.unified_diff(text.splitlines(True), t.splitlines(True), 'a/' + p, 'b/' + p))
        f.write(json.dumps(dict(id='m%s-%d' % (seed, i), file=name, line=line, fn=fn, what=what, diff=d)) + '\n')
