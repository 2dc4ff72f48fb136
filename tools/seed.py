"""Planted bugs.  tools/seeds/<id>.py defines PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text using the
header below).   seed.py gen [ids]: write /verif/seeded/<id>/ ;  seed.py test [ids]: confirm in a scratch copy and run the check."""
import glob
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'

HEADER = '''import io, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import ombott
from ombott import Ombott, HTTPError, HTTPResponse


def env(method='GET', path='/', body=b'', qs='', **kw):
    e = {'REQUEST_METHOD': method, 'PATH_INFO': path.encode('utf8').decode('latin1'), 'SCRIPT_NAME': '', 'QUERY_STRING': qs,
         'SERVER_NAME': 'h', 'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1', 'wsgi.url_scheme': 'http',
         'wsgi.errors': io.StringIO(), 'wsgi.input': io.BytesIO(body), 'wsgi.version': (1, 0)}
    if body:
        e['CONTENT_LENGTH'] = str(len(body))
    e.update(kw)
    return e


def call(app, e):
    out = []

    def sr(status, headers, exc=None):
        out[:] = [status, headers]
    it = app(e, sr)
    body = b''.join(it)
    if hasattr(it, 'close'):
        it.close()
    return out[0], out[1], body


'''
DEMO_SH = '''#!/bin/bash
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 exec "$PY" -W ignore "$(dirname "$0")/demo.py"
'''


def load(i):
    return runpy.run_path(os.path.join(HERE, 'seeds', i + '.py'))


def gen(i):
    s = load(i)
    tmp = tempfile.mkdtemp(prefix='seedgen.')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', tmp + '/r'])
        for f, old, new in s['EDITS']:
            p = os.path.join(tmp, 'r', f)
            t = open(p, newline='').read()
            if t.count(old) != 1:
                raise SystemExit('%s: %s: %d occurrences of %r' % (i, f, t.count(old), old))
            open(p, 'w', newline='').write(t.replace(old, new))
        diff = subprocess.check_output(['git', '-C', tmp + '/r', 'diff', '--no-color'], text=True)
    finally:
        shutil.rmtree(tmp)
    d = os.path.join(VERIF, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(HEADER + s['DEMO'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO_SH)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['PROPERTY'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(d + '/meta.json', 'w'), indent=1)


def orig_lines_only(i):
    """removed lines must be the original repository's"""
    d = os.path.join(VERIF, 'seeded', i, 'patch.diff')
    bad = []
    f = None
    for ln in open(d):
        if ln.startswith('--- a/'):
            f = ln[6:].strip()
            base = subprocess.check_output(['git', '-C', '/repo', 'show', BASE + ':' + f], text=True).splitlines()
        elif ln.startswith('-') and not ln.startswith('---'):
            if ln[1:].rstrip('\n') not in base:
                bad.append(ln.rstrip())
    return bad


BASE = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()


def test(i, run_check=True):
    d = os.path.join(VERIF, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='seed.')
    res = [i, meta['property']]
    try:
        r = tmp + '/r'
        shutil.copytree('/repo', r, symlinks=True)
        # the demo's folder lies elsewhere
        shutil.copytree(d, tmp + '/d')
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        rc0 = subprocess.run(['bash', tmp + '/d/demo.sh'], cwd=r, env=e, capture_output=True, timeout=300).returncode
        res.append('clean=%d' % rc0)
        subprocess.check_call(['git', '-C', r, 'apply', d + '/patch.diff'])
        p = subprocess.run(['bash', tmp + '/d/demo.sh'], cwd=r, env=e, capture_output=True, timeout=300)
        res.append('bug=%d' % p.returncode)
        fails = 0
        for f in sorted(glob.glob(r + '/tests/**/test_*.py', recursive=True)):
            t = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', f], cwd=r, env=dict(e, PYTHONPATH=r),
                               capture_output=True, text=True)
            if t.returncode:
                fails += 1
                res.append('TESTFAIL ' + '; '.join(re.findall(r'^FAILED .*', t.stdout, re.M))[:200])
        res.append('tests=%s' % ('ok' if not fails else 'FAIL'))
        bad = orig_lines_only(i)
        if bad:
            res.append('NOTORIG %d' % len(bad))
        if run_check:
            c = subprocess.run([VERIF + '/check', meta['property']], env=dict(e, VERIF_REPO=r, VERIF_EVIDENCE=tmp + '/ev',
                               VERIF_SEED=os.environ.get('VERIF_SEED', '1')), capture_output=True, text=True)
            keys = re.findall(r'^violation key=(\S+)', c.stdout, re.M)
            wall = re.findall(r'wall=(\S+)', c.stdout)
            res.append('check rc=%d %s %s' % (c.returncode, wall[:1], keys))
            if c.returncode not in (0, 1):
                res.append((c.stdout + c.stderr)[-600:])
        ok = rc0 == 0 and p.returncode != 0 and not fails and not bad
        res.append('OK' if ok else 'NOT-COUNTED ' + (p.stdout + p.stderr).decode()[-300:])
    finally:
        shutil.rmtree(tmp)
    return res


if __name__ == '__main__':
    ids = sys.argv[2:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(HERE + '/seeds/*.py'))
    if sys.argv[1] == 'gen':
        for i in ids:
            gen(i)
    else:
        if sys.argv[1] == 'both':
            for i in ids:
                gen(i)
        with ThreadPoolExecutor(2) as ex:
            for r in ex.map(test, ids):
                print(*r, flush=True)
