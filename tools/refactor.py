"""Changes that keep the behaviour: every check has to stay quiet.  tools/refactors/<id>.py defines EDITS=[(file, old, new)] (old occurs once).
refactor.py [ids] [--checks C01,...]: applies all given ones together (one by one with --each) to a copy, runs the tests and the checks."""
import glob
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'


def apply(r, ids):
    for i in ids:
        for f, old, new in runpy.run_path(os.path.join(HERE, 'refactors', i + '.py'))['EDITS']:
            p = os.path.join(r, f)
            t = open(p, newline='').read()
            if t.count(old) != 1:
                raise SystemExit('%s: %s: %d occurrences of %r' % (i, f, t.count(old), old))
            open(p, 'w', newline='').write(t.replace(old, new))


def go(ids, checks):
    tmp = tempfile.mkdtemp(prefix='refac.')
    try:
        r = tmp + '/r'
        shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        apply(r, ids)
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        t = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=r, env=dict(e, PYTHONPATH=r), capture_output=True, text=True)
        print(' '.join(ids), 'tests', t.stdout.strip().splitlines()[-1])
        for c in checks:
            p = subprocess.run([VERIF + '/check', c], env=dict(e, VERIF_REPO=r, VERIF_EVIDENCE=tmp + '/ev'), capture_output=True, text=True)
            if p.returncode:
                print('  ALARM', c, p.returncode, re.findall(r'^violation key=(\S+)', p.stdout, re.M)[:5], (p.stdout + p.stderr)[-1500:])
            else:
                print('  ', c, 'quiet', end='\n' if c == checks[-1] else '')
            sys.stdout.flush()
    finally:
        shutil.rmtree(tmp)


def main():
    args = sys.argv[1:]
    each = '--each' in args
    checks = ['C%02d' % i for i in range(1, 21)]
    ids = []
    for a in args:
        if a.startswith('--checks='):
            checks = a[9:].split(',')
        elif not a.startswith('--'):
            ids.append(a)
    ids = ids or sorted(os.path.basename(f)[:-3] for f in glob.glob(HERE + '/refactors/*.py'))
    for group in ([[i] for i in ids] if each else [ids]):
        go(group, checks)


main()
