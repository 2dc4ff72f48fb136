"""Mutation campaign: small syntactic changes to the sources that pass the existing tests; which checks notice them?

mutate.py run OUT.jsonl [--files f1,f2] [--sample N] [--seed S] [--jobs J]   (works in scratch copies under /tmp, resumable)
mutate.py report OUT.jsonl
"""
import argparse
import ast
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = {
    'ombott/ombott.py': 'C02 C03 C13 C11 C20 C10 C09',
    'ombott/response.py': 'C14 C15 C03 C20 C10 C09',
    'ombott/common_helpers.py': 'C14 C15 C17 C03 C13 C20 C10 C09',
    'ombott/error_render.py': 'C20 C03',
    'ombott/mixable.py': 'C10 C13 C09 C01',
    'ombott/static_stream.py': 'C17 C16',
    'ombott/request_pkg/body_mixin.py': 'C04 C05 C07 C12 C18 C06 C13',
    'ombott/request_pkg/helpers.py': 'C18 C07 C15 C12 C04 C05 C13 C03',
    'ombott/request_pkg/multipart.py': 'C06 C07 C12 C04',
    'ombott/request_pkg/props_mixin.py': 'C15 C12 C07 C13 C20',
    'ombott/request_pkg/request.py': 'C04 C13 C10 C09 C08',
    'ombott/router/filter_factory.py': 'C01 C19 C11 C02',
    'ombott/router/parser.py': 'C01 C19 C11 C02',
    'ombott/router/radidict.py': 'C11 C01 C02 C19',
    'ombott/router/radirouter.py': 'C01 C02 C11 C19',
    'ombott/router/sym_stream.py': 'C01 C11 C19 C02',
}


def mutants(src):
    """-> [(line, description, new source)]"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    out = []

    def put(n, new, what):
        a, b = span(n)
        old = raw[a:b].decode()
        if new != old:
            out.append((n.lineno, '%s: %s -> %s' % (what, old[:60], new[:60]), (raw[:a] + new.encode() + raw[b:]).decode()))

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))
            doc.add(id(n.body[0]))
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                doc.add(id(m))
    CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, '(%s %s %s)' % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.Compare):
            for i in range(len(n.ops)):
                parts = [text(n.left)]
                for j, (o, c) in enumerate(zip(n.ops, n.comparators)):
                    op = {'!=': '=='}.get(CMP[type(o)]) if False else None
                    sym = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}.get(type(o), '==')
                    parts += [CMP[type(o)] if i == j else sym, text(c)]
                put(n, ' '.join(parts), 'cmp')
        elif isinstance(n, ast.BoolOp):
            other = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + other.join('(%s)' % text(v) for v in n.values) + ')', 'bool')
            for v in n.values:
                put(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % text(w) for w in n.values if w is not v) + ')', 'drop')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, '(%s)' % text(n.operand), 'not')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, str(not n.value), 'const')
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), 'const')
            elif isinstance(n.value, str) and n.value:
                put(n, repr(n.value[:-1]) if len(n.value) == 1 else repr(n.value.swapcase() if n.value.swapcase() != n.value else n.value[:-1]), 'str')
            elif isinstance(n.value, bytes) and n.value:
                put(n, repr(n.value[:-1]), 'bytes')
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            put(n, 'return None', 'return')
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) or isinstance(n, ast.Expr) and not isinstance(n.value, (ast.Yield, ast.Constant)):
            put(n, 'pass', 'del')
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, '(not (%s))' % text(n.test), 'cond')
            put(n.test, 'True', 'cond')
            put(n.test, 'False', 'cond')
        elif isinstance(n, ast.IfExp):
            put(n, '(%s)' % text(n.body), 'ifexp')
            put(n, '(%s)' % text(n.orelse), 'ifexp')
        elif isinstance(n, ast.BinOp):
            sym = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Mod: None}.get(type(n.op))
            if sym:
                put(n, '(%s %s %s)' % (text(n.left), sym, text(n.right)), 'arith')
        elif isinstance(n, ast.Break):
            put(n, 'continue', 'loop')
        elif isinstance(n, ast.Continue):
            put(n, 'break', 'loop')
        elif isinstance(n, ast.Slice):
            for part in (n.lower, n.upper):
                if part is not None:
                    put(part, '(%s) + 1' % text(part), 'slice')
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and len(n.args) <= 1 and n.func.attr in ('strip', 'lower', 'upper', 'title', 'rstrip', 'lstrip', 'copy', 'encode', 'decode', 'replace', 'keys', 'items', 'values', 'split'):
                put(n, text(n.func.value), 'call')
            for a in n.args[-1:]:
                if len(n.args) + len(n.keywords) > 1:
                    rest = [text(x) for x in n.args if x is not a] + [('%s=%s' % (k.arg, text(k.value)) if k.arg else '**' + text(k.value)) for k in n.keywords]
                    put(n, '%s(%s)' % (text(n.func), ', '.join(rest)), 'arg')
            for kw in n.keywords:
                if kw.arg:
                    rest = [text(x) for x in n.args] + [('%s=%s' % (k.arg, text(k.value)) if k.arg else '**' + text(k.value)) for k in n.keywords if k is not kw]
                    put(n, '%s(%s)' % (text(n.func), ', '.join(rest)), 'kwarg')
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            put(n.type, 'ZeroDivisionError', 'except')
    good = []
    seen = set()
    for line, what, new in out:
        if new in seen:
            continue
        seen.add(new)
        try:
            compile(new, 'x', 'exec')
        except SyntaxError:
            continue
        good.append((line, what, new))
    return good


def run_one(job):
    f, line, what, new = job
    tmp = tempfile.mkdtemp(prefix='mut.')
    rec = dict(file=f, line=line, what=what)
    try:
        r = tmp + '/r'
        shutil.copytree(VERIF_SNAP + '/repo', r, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        with open(os.path.join(r, f), 'w', newline='') as fp:
            fp.write(new)
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=r)
        try:
            t = subprocess.run([PY, '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', '--timeout=60', 'tests'], cwd=r, env=e, capture_output=True, text=True, timeout=300)
            ok = t.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        rec['tests'] = ok
        if ok:
            rec['checks'] = {}
            for c in FILES[f].split():
                e2 = dict(e, VERIF_REPO=r, VERIF_EVIDENCE=tmp + '/ev', VERIF_NPROC='1', VERIF_FAILFAST='1')
                del e2['PYTHONPATH']
                try:
                    p = subprocess.run([VERIF_SNAP + '/check', c], env=e2, capture_output=True, text=True, timeout=1500)
                    rc = p.returncode
                    keys = re.findall(r'^violation key=(\S+)', p.stdout, re.M)[:4]
                    rec['checks'][c] = [rc] + (keys if rc != 2 else [(p.stdout + p.stderr)[-300:]])
                except subprocess.TimeoutExpired:
                    rc = 3
                    rec['checks'][c] = [3]
                if rc == 1:
                    break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rec


VERIF_SNAP = VERIF


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('out')
    ap.add_argument('--files')
    ap.add_argument('--sample', type=int)
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    if a.cmd == 'report':
        recs = [json.loads(x) for x in open(a.out)]
        surv = [r for r in recs if r['tests']]
        miss = [r for r in surv if not any(v[0] == 1 for v in r['checks'].values())]
        print('%d mutants, %d pass the tests, %d of them noticed' % (len(recs), len(surv), len(surv) - len(miss)))
        for r in sorted(miss, key=lambda r: (r['file'], r['line'])):
            print('%s:%d %s %s' % (r['file'], r['line'], r['what'].replace('\n', ' '), {k: v for k, v in r['checks'].items() if v[0] != 0} or ''))
        return
    # a snapshot of the checks, so that editing may go on
    global VERIF_SNAP
    VERIF_SNAP = tempfile.mkdtemp(prefix='mutverif.')
    for d in ('checks', 'vlib'):
        shutil.copytree(VERIF + '/' + d, VERIF_SNAP + '/' + d)
    for f in ('check', 'KNOWN_FINDINGS.txt'):
        shutil.copy(VERIF + '/' + f, VERIF_SNAP)
    shutil.copytree('/repo', VERIF_SNAP + '/repo', symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    jobs = []
    for f in (a.files.split(',') if a.files else FILES):
        for m in mutants(open('/repo/' + f, newline='').read()):
            jobs.append((f,) + m)
    random.Random(a.seed).shuffle(jobs)
    done = set()
    if os.path.exists(a.out):
        for x in open(a.out):
            r = json.loads(x)
            done.add((r['file'], r['line'], r['what']))
    jobs = [j for j in jobs if j[:3] not in done]
    print('%d mutants to do' % len(jobs))
    if a.sample:
        jobs = jobs[:a.sample]
    try:
        with ThreadPoolExecutor(a.jobs) as ex, open(a.out, 'a') as out:
            for rec in (x.result() for x in as_completed([ex.submit(run_one, j) for j in jobs])):
                out.write(json.dumps(rec) + '\n')
                out.flush()
    finally:
        shutil.rmtree(VERIF_SNAP)


if __name__ == '__main__':
    main()
