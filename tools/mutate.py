#!/usr/bin/env python3
"""Self-assessment of the checks (not a check itself): mutate the package systematically, keep what the test
suite does not notice, and see which of those changes the properties' monitors notice.

mutate.py OUTDIR [file ...]      list, test and judge all mutants; resumable (OUTDIR/log.jsonl)
Mutants that survive are then read by hand: either nothing observable changed, or a monitor has a hole.
"""
import ast
import importlib
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RV_REPO', '/repo')
PY = '/opt/venv/bin/python'
CMP = {'Lt': ['<=', '>'], 'LtE': ['<', '>'], 'Gt': ['>=', '<'], 'GtE': ['>', '<'], 'Eq': ['!='], 'NotEq': ['=='], 'In': ['not in'],
       'NotIn': ['in'], 'Is': ['is not'], 'IsNot': ['is']}
BIN = {'Add': '-', 'Sub': '+', 'Mult': '/', 'Div': '*', 'Pow': '*', 'FloorDiv': '/', 'Mod': '//', 'BitAnd': '|', 'BitOr': '&'}


def mutants(src):
    """(line, function, kind, new source) for every mutant."""
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        i, j = span(n)
        return b[i:j].decode()
    out = []

    def put(n, new, kind, where=None):
        i, j = where or span(n)
        out.append((n.lineno, kind, (b[:i] + new.encode() + b[j:]).decode(), b[i:j].decode()[:60] + ' -> ' + new[:60]))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Module, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
            docs.add(id(n.body[0].value))
    inf = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for m in ast.walk(n):
                inf.add(id(m))
    for n in ast.walk(tree):
        if id(n) not in inf or id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]).__name__, []):
                put(n, '(%s) %s (%s)' % (text(n.left), o, text(n.comparators[0])), 'compare')
        elif isinstance(n, ast.BinOp) and type(n.op).__name__ in BIN:
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                put(n, '((%s) %s (%s))' % (text(n.left), BIN[type(n.op).__name__], text(n.right)), 'binop')
                if isinstance(n.op, (ast.Mod, ast.Pow)):
                    put(n, '(%s)' % text(n.left), 'binop')
        elif isinstance(n, ast.UnaryOp):
            put(n, '(%s)' % text(n.operand), 'unary')
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                put(n, '(%s)' % text(n.values[i]), 'boolop')
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                put(n, str(not v), 'const')
            elif isinstance(v, int):
                put(n, str(v + 1), 'const')
                put(n, '(%d)' % (v - 1), 'const')
            elif isinstance(v, float):
                put(n, repr(v * 1.001 if v else .001), 'const')
            elif isinstance(v, str) and text(n)[:1] in '\'"r' and not text(n).startswith('f'):
                put(n, text(n)[:-1] + 'z' + text(n)[-1] if not text(n).endswith('"""') else text(n), 'string')
            elif v is None:
                put(n, '0', 'const')
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    rest = [text(a) for a in n.args] + ['%s%s' % (q.arg + '=' if q.arg else '**', text(q.value)) for q in n.keywords if q is not k]
                    put(n, '%s(%s)' % (text(n.func), ', '.join(rest)), 'keyword')
            if len(n.args) >= 2:
                for i in range(len(n.args) - 1):
                    a = [text(x) for x in n.args]
                    if a[i] != a[i + 1] and not any(isinstance(x, ast.Starred) for x in n.args):
                        a[i], a[i + 1] = a[i + 1], a[i]
                        put(n, '%s(%s)' % (text(n.func), ', '.join(a + ['%s%s' % (q.arg + '=' if q.arg else '**', text(q.value)) for q in n.keywords])), 'swap')
            if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.GeneratorExp):
                put(n, '(%s)' % text(n.args[0]), 'unwrap')
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                put(n, '(%s)' % text(n.func.value), 'unwrap')
        elif isinstance(n, ast.Slice):
            for e in ('lower', 'upper', 'step'):
                x = getattr(n, e)
                if x is not None:
                    put(x, '', 'slice') if not e == 'step' else put(x, '1', 'slice')
        elif isinstance(n, ast.IfExp):
            put(n, '(%s)' % text(n.body), 'ifexp')
            put(n, '(%s)' % text(n.orelse), 'ifexp')
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, '(True)', 'cond')
            put(n.test, '(False)', 'cond')
        elif isinstance(n, ast.comprehension):
            for t in n.ifs:
                put(t, '(True)', 'cond')
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Return, ast.Continue, ast.Break, ast.Try)) and id(n) not in docs:
            put(n, 'pass', 'delete')
        if isinstance(n, ast.AugAssign):
            put(n, '%s = %s' % (text(n.target), text(n.value)), 'aug')
    funcs = [(n.lineno, n.end_lineno, n.name) for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))]
    for ln, kind, new, what in out:
        fn = [f for a, z, f in funcs if a <= ln <= z]
        if new == src or not fn:
            continue
        try:
            compile(new, 'x', 'exec')
        except (SyntaxError, ValueError):
            continue
        yield ln, fn[0], kind, what, new


def props_of(path):
    """function -> properties whose monitors watch it, directly or through its callers."""
    sys.path.insert(0, ROOT)
    direct = {}
    for f in sorted(os.listdir(ROOT + '/rv/props')):
        if f.startswith('c') and f.endswith('.py'):
            m = importlib.import_module('rv.props.' + f[:-3])
            for t in m.TARGETS:
                direct.setdefault(t.split('.')[-1], []).append(f[:-3].upper())
    tree = ast.parse(open(path).read())
    fs = {n.name: n for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
    uses = {k: {m.id for m in ast.walk(n) if isinstance(m, ast.Name) and m.id in fs and m.id != k} for k, n in fs.items()}
    text = open(path).read()
    for k in fs:         # parsers looked up by name
        if k.startswith('_') and not any(k in u for u in uses.values()):
            stem = '_' + k.split('_')[1] + '_'
            for c in fs:
                if stem in ast.get_source_segment(text, fs[c]) and c != k and not c.startswith('_'):
                    uses[c].add(k)
    got = {}
    for k in fs:
        seen, todo = set(), [k]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += [c for c in fs if x in uses[c]]
        got[k] = sorted({p for s in seen for p in direct.get(s, [])})
    return got


def main():
    out = sys.argv[1]
    files = sys.argv[2:] or ['shipgrav/io.py', 'shipgrav/nav.py', 'shipgrav/utils.py', 'shipgrav/grav.py']
    os.makedirs(out, exist_ok=True)
    log = out + '/log.jsonl'
    done = {}
    if os.path.exists(log):
        for ln in open(log):
            r = json.loads(ln)
            done[r['key']] = r
    jobs = []
    for f in files:
        src = open(REPO + '/' + f).read()
        pm = props_of(REPO + '/' + f)
        seen = set()
        for ln, fn, kind, what, new in mutants(src):
            if new in seen:
                continue
            seen.add(new)
            key = '%s:%d:%s:%s' % (f, ln, kind, what)
            while key in {j[0] for j in jobs[-40:]}:
                key += "'"
            jobs.append((key, f, fn, new, pm[fn]))
    print(len(jobs), 'mutants,', sum(j[0] in done for j in jobs), 'done', flush=True)
    n = int(os.environ.get('N', 8))
    pool = list(range(n))
    for i in pool:
        w = '%s/w%d' % (out, i)
        shutil.rmtree(w, ignore_errors=True)
        subprocess.check_call(['cp', '-a', REPO, w])

    def one(job):
        key, f, fn, new, props = job
        if key in done:
            return
        i = pool.pop()
        w = '%s/w%d' % (out, i)
        try:
            with open(w + '/' + f) as fh:
                old = fh.read()
            with open(w + '/' + f, 'w') as fh:
                fh.write(new)
            env = dict(os.environ, PYTHONPATH=w, RV_REPO=w, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
            r = {'key': key, 'fn': fn}
            try:
                p = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', 'shipgrav/tests'], cwd=w, env=env,
                                   capture_output=True, text=True, timeout=200)
                ok = p.returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
            r['tests'] = ok
            if ok:
                r['caught'], r['odd'] = [], []
                for pr in sorted(props, key=lambda x: x in ('C01', 'C13', 'C34', 'C33', 'C12')):
                    try:
                        q = subprocess.run([PY, 'check.py', pr], cwd=ROOT, env=env, capture_output=True, text=True, timeout=600)
                        if q.returncode == 1 and 'VIOLATION' in q.stdout:
                            r['caught'].append(pr)
                            break
                        if q.returncode not in (0, 1):
                            r['odd'].append(pr)
                    except subprocess.TimeoutExpired:
                        r['odd'].append(pr + ' timeout')
            with open(w + '/' + f, 'w') as fh:
                fh.write(old)
            with open(log, 'a') as fh:
                fh.write(json.dumps(r) + '\n')
        finally:
            pool.append(i)
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, jobs))
    for i in range(n):
        shutil.rmtree('%s/w%d' % (out, i), ignore_errors=True)


main()
