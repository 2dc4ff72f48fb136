"""Words and numbers for the generators, read off the code under test (the dictionary of a fuzzer).

Strings and integers that the sources of the package mention are where its behaviour may differ from that on random data, so
generators mix them into their inputs; constants that the reviewed tree (autodict_base.json) does not have are preferred.  This
steers workloads only: verdicts never depend on it."""
import ast
import glob
import json
import os

from . import core

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'autodict_base.json')


def fold(n):
    """value of an integer expression made of constants"""
    if isinstance(n, ast.Constant) and type(n.value) is int:
        return n.value
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v = fold(n.operand)
        return None if v is None else -v
    if isinstance(n, ast.BinOp):
        a, b = fold(n.left), fold(n.right)
        if a is None or b is None:
            return None
        try:
            if isinstance(n.op, ast.Mult) and abs(a) < 1 << 40 and abs(b) < 1 << 40:
                return a * b
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
            if isinstance(n.op, ast.Pow) and 0 <= b <= 40 and abs(a) <= 1024:
                return a ** b
            if isinstance(n.op, ast.LShift) and 0 <= b <= 40:
                return a << b
        except Exception:
            return None
    return None


def collect(repo):
    strs, ints = set(), set()
    for f in sorted(glob.glob(os.path.join(repo, 'ombott', '**', '*.py'), recursive=True)):
        try:
            tree = ast.parse(open(f, encoding='utf8').read())
        except (SyntaxError, UnicodeDecodeError, OSError):
            continue
        docs = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
        for n in ast.walk(tree):
            if id(n) in docs:
                continue
            v = n.value if isinstance(n, ast.Constant) else None
            if isinstance(v, bytes):
                v = v.decode('latin1')
            if isinstance(v, str):
                if 0 < len(v) <= 48:
                    strs.add(v)
                for w in v.split():
                    if 1 < len(w) <= 24 and len(v) <= 160:
                        strs.add(w)
            k = fold(n)
            if k is not None and 0 <= k <= 1 << 24:
                ints.add(k)
    return sorted(strs), sorted(ints)


_cache = None


def load():
    global _cache
    if _cache is None:
        strs, ints = collect(core.REPO)
        try:
            base = json.load(open(BASE))
        except OSError:
            base = dict(strs=[], ints=[])
        bs, bi = set(base['strs']), set(base['ints'])
        _cache = (strs, ints, [s for s in strs if s not in bs], [i for i in ints if i not in bi])
    return _cache


def novel_words():
    return load()[2]


def novel_ints():
    return load()[3]


def word(rng):
    strs, _, new, _ = load()
    w = rng.choice(new) if new and rng.random() < .6 else rng.choice(strs)
    k = rng.random()
    if k < .12:
        w = rng.choice([w.lower(), w.upper(), w.title(), w.swapcase()])
    elif k < .2 and len(w) > 1:
        w = rng.choice([w[1:], w[:-1], w + w[-1]])
    return w


def number(rng, hi=1 << 24, lo=0):
    """a number the code knows, or a neighbour of one"""
    _, ints, _, new = load()
    for _ in range(20):
        n = (rng.choice(new) if new and rng.random() < .7 else rng.choice(ints)) + rng.choice([-1, 0, 0, 1, 1, 2])
        if rng.random() < .1:
            n *= 2
        if lo <= n <= hi:
            return n
    return rng.randint(lo, min(hi, lo + 300))


def spice(rng, text, p=.06, bad=''):
    """text, sometimes with a word of the code in it; characters of `bad` never enter"""
    if rng.random() >= p:
        return text
    w = word(rng)
    if bad and any(c in bad for c in w):
        return text
    k = rng.random()
    if k < .4:
        return w
    i = rng.randint(0, len(text)) if k < .6 else 0 if k < .8 else len(text)
    return text[:i] + w + text[i:]


def env_extra(rng, p=.5):
    """environ entries under names that only the changed code knows"""
    out = {}
    for w in novel_words():
        if rng.random() < p and w.isascii() and w.replace('_', '').replace('.', '').replace('-', '').isalnum():
            if w.startswith('HTTP_') and w.isupper():
                out[w] = rng.choice(['1', 'on', '', 'a<b>"\'&', 'application/json'])
            elif '-' in w and w[:1].isupper():
                out['HTTP_' + w.upper().replace('-', '_')] = rng.choice(['1', 'on', '', 'a<b>"\'&', 'application/json'])
    return out


def main():
    import sys
    repo = sys.argv[1] if len(sys.argv) > 1 else core.REPO
    s, i = collect(repo)
    json.dump(dict(strs=s, ints=i), open(BASE, 'w'), indent=0)
    print(len(s), 'strings', len(i), 'integers')


if __name__ == '__main__':
    main()
