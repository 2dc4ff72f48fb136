"""Rule ASTs, their spellings in every rule syntax, and the plain rule-by-rule matcher (the C01/C11/C19 reference).

An AST is a list of ('lit', text) and ('par', name|None, filter|None, args|None).
Reference semantics of one rule over one path (both without outer slashes):
  literal text matches itself; a wildcard needs at least one character left in the path;
  a plain wildcard takes everything up to the next '/'; a filtered wildcard takes what its mask matches once
  at the cursor (greedy regular expression, no backtracking into it); the whole path has to be consumed.
  A rex wildcard gives the first group that took part (the whole match without one) and consumes the whole match;
  with a selector [n] it matches only when that group is number n.  Its args are 'regex' or 'regex\nn'.
"""
import math
import re

from . import autodict as AD


def par(name=None, filt=None, args=None):
    return ('par', name, filt, args)


def lit(s):
    return ('lit', s)


def is_wild(tok):
    return isinstance(tok, tuple) and tok[0] == 'w'


def norm(ast):
    """merge neighbouring literals"""
    out = []
    for e in ast:
        if e[0] == 'lit':
            if not e[1]:
                continue
            if out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + e[1])
                continue
        out.append(e)
    return out


# ------------------------------------------------------------------ filters
_mask_cache = {}


def _mask(filt, args, follow):
    key = (filt, args, follow)
    m = _mask_cache.get(key)
    if m is None:
        if filt == 'int':
            s = r'-?\d+'
        elif filt == 'float':
            s = r'-?\d+(\.\d+)?'
        elif filt in ('re', 'rex'):
            s = args
        elif filt == 'path':
            s = '.+(?=%s)' % re.escape(follow) if follow else '.+$'
        m = _mask_cache[key] = re.compile(s)
    return m


REJECT = object()


def take(fid, text):
    """what a filtered wildcard does at the start of text: (value, length, selected group) or None"""
    filt, args, follow = fid
    m = _mask(filt, args, follow).match(text)
    if not m:
        return None
    if filt == 'rex':
        for n, g in enumerate(m.groups(), 1):
            if g is not None:
                return g, m.end(), n
        return m.group(), m.end(), None
    v = convert(filt, m.group())
    return None if v is REJECT else (v, m.end(), None)


def rex_args(args):
    rx, _, sel = args.partition('\n')
    return rx, sel or None


def convert(filt, text):
    if filt == 'int':
        try:
            return int(text)
        except ValueError:       # interpreter limit on digits
            return REJECT
    if filt == 'float':
        v = float(text)
        return v if math.isfinite(v) else REJECT
    return text


class Rule:
    """One rule. `elems` is normalised; `text` one spelling of it."""

    def __init__(self, ast, text=None, spelled=None):
        ast = norm(ast)
        self.full_ast = ast
        self.outer_slash = bool(ast) and (ast[0][0] == 'lit' and ast[0][1][0] == '/'
                                          or ast[-1][0] == 'lit' and ast[-1][1][-1] == '/')
        if self.outer_slash:     # outer slashes do not count, neither in paths nor in rules
            if ast[0][0] == 'lit':
                ast[0] = ('lit', ast[0][1].lstrip('/'))
            if ast[-1][0] == 'lit':
                ast[-1] = ('lit', ast[-1][1].rstrip('/'))
            ast = norm(ast)
        self.ast = ast
        self.text = text
        self.toks = []       # pattern tokens: single characters, or ('w', semantic filter id)
        self.spelled = spelled or {}
        self.names = []
        self.parts = []
        el = self.ast
        for i, e in enumerate(el):
            if e[0] == 'lit':
                self.toks.extend(e[1])
                self.parts.append(e)
            else:
                _, name, filt, args = e
                follow = el[i + 1][1] if filt == 'path' and i + 1 < len(el) and el[i + 1][0] == 'lit' else None
                sel = None
                if filt == 'rex':
                    args, sel = rex_args(args)
                fid = (filt, args if filt in ('re', 'rex') else None, follow)
                self.toks.append(('w', fid))
                if sel is not None:
                    self.toks.append(('s', sel))
                self.names.append(name)
                self.parts.append(('par', name, fid, sel))
        self.toks = tuple(self.toks)

    def match(self, path):
        """values of all wildcards, or None. `path` has no outer slashes (unless `raw` semantics are wanted)."""
        i, L, vals = 0, len(path), []
        for p in self.parts:
            if p[0] == 'lit':
                if not path.startswith(p[1], i):
                    return None
                i += len(p[1])
            else:
                if i >= L:
                    return None
                if p[2][0] is None:
                    j = path.find('/', i)
                    j = L if j < 0 else j
                    vals.append(path[i:j])
                    i = j
                else:
                    got = take(p[2], path[i:])
                    if got is None or p[3] is not None and str(got[2]) != p[3]:
                        return None
                    vals.append(got[0])
                    i += got[1]
        return vals if i == L else None

    def prefixes(self, path):
        """For hook semantics: offset reached after matching the whole rule as a prefix of path, or None."""
        i, L = 0, len(path)
        for p in self.parts:
            if p[0] == 'lit':
                if not path.startswith(p[1], i):
                    return None
                i += len(p[1])
            else:
                if i >= L:
                    return None
                if p[2][0] is None:
                    j = path.find('/', i)
                    i = L if j < 0 else j
                else:
                    got = take(p[2], path[i:])
                    if got is None or p[3] is not None and str(got[2]) != p[3]:
                        return None
                    i += got[1]
        return i

    def named(self, vals):
        return {n: v for n, v in zip(self.names, vals) if n is not None}

    def __repr__(self):
        return '<%s>' % self.text


def differ(a, b):
    """index of first differing token, or None when one is a prefix of the other / equal"""
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    return None


def conflict(a, b):
    """Two different wildcards at the first position where the patterns differ: cannot live in one router."""
    i = differ(a.toks, b.toks)
    return i is not None and a.toks[i][0] == b.toks[i][0] == 'w' and isinstance(a.toks[i], tuple) and isinstance(b.toks[i], tuple)


def select(rules, path):
    """Plain semantics. rules: iterable of Rule. Returns (best rules [ties], values per rule)."""
    path = path.strip('/')
    cand = []
    for r in rules:
        v = r.match(path)
        if v is not None:
            cand.append((r, v))
    return narrow(cand)


def narrow(cand):
    best = cand
    while len(best) > 1:
        # first position where the remaining candidates differ
        n = 0
        while True:
            heads = {r.toks[n] if n < len(r.toks) else None for r, _ in best}
            if len(heads) > 1:
                break
            if heads == {None}:
                return best
            n += 1
        sel = [(r, v) for r, v in best if n < len(r.toks) and r.toks[n][0] == 's' and isinstance(r.toks[n], tuple)]
        if sel:      # a selector against anything else: not decided by the property
            return narrow(sel) + narrow([b for b in best if b not in sel])
        lits = [(r, v) for r, v in best if n < len(r.toks) and isinstance(r.toks[n], str)]
        if lits:
            if len(lits) == len(best):
                return best
            best = lits
        else:
            return best
    return best


# ------------------------------------------------------------------ spelling
def spell(rng, ast, flavour=None):
    """Text of the rule in some syntax flavour. Returns (text, spelled) ; spelled: index -> filter identity as written."""
    ast = norm(ast)
    nm = [e[1] for e in ast if e[0] == 'par' and e[1]]
    if len(set(nm)) != len(nm):
        return None, None
    out = ['/']
    spelled = []
    for k, e in enumerate(ast):
        if e[0] == 'lit':
            out.append(e[1])
            continue
        _, name, filt, args = e
        nxt = ast[k + 1] if k + 1 < len(ast) else None
        boundary = nxt is None or (nxt[0] == 'lit' and nxt[1][0] == '/')
        o, c = rng.choice(['<>', '{}']) if flavour is None else flavour
        if filt is None:
            if name is None:
                if nxt is not None:      # the parser takes an anonymous ':' only at the end of a rule
                    return None, None
                out.append(':')
                spelled.append(None)
                continue
            opts = ['%s%s%s' % (o, name, c)]
            if boundary:
                opts.append(':' + name)
            out.append(rng.choice(opts))
            spelled.append(None)
            continue
        if filt == 're':
            a = args
            forms = []
            if _balanced(a):
                if name is None:
                    forms += ['%sre(%s)%s' % (o, a, c), '%s:re(%s)%s' % (o, a, c)]
                else:
                    forms += ['%s%s.re(%s)%s' % (o, name, a, c), '%s%s:re(%s)%s' % (o, name, a, c)]
            if c not in a:
                forms += ['%s%s:re:%s%s' % (o, name or '', a, c)]
            if not forms:
                return None, None
            out.append(rng.choice(forms))
            spelled.append(('re', a))
        elif filt == 'rex':
            a, sel = rex_args(args)
            n, x = name or '', '[%s]' % sel if sel else ''
            forms = []
            if _balanced(a):
                for f in (['', ':'] if name is None else ['.', ':']):
                    forms.append(o + n + f + 'rex(' + a + ')' + x + c)
            if sel is None and c not in a:
                forms.append(o + n + ':rex:' + a + c)
            if not forms:
                return None, None
            out.append(rng.choice(forms))
            spelled.append(('rex', a))
        else:
            if name is None:
                forms = [('%s%s()%s', ''), ('%s:%s%s', None), ('%s:%s()%s', '')]
                f, sp = rng.choice(forms)
                out.append(f % (o, filt, c))
            else:
                forms = [('%s%s.%s()%s', ''), ('%s%s.%s%s', None), ('%s%s:%s%s', None), ('%s%s:%s()%s', '')]
                f, sp = rng.choice(forms)
                out.append(f % (o, name, filt, c))
            spelled.append((filt, None if filt == 'path' else sp))
    return ''.join(out), spelled


def _balanced(s):
    d = 0
    esc = False
    for ch in s:
        if esc:
            esc = False
        elif ch == '\\':
            esc = True
        elif ch == '(':
            d += 1
        elif ch == ')':
            d -= 1
            if d < 0:
                return False
    return d == 0 and not esc


# ------------------------------------------------------------------ generators
LITS = ['a', 'b', 'ab', 'abc', 'abd', 'x', '1', '12', '-', '.', 'é', '/', '//', 'a/b', 'foo', 'fo', '_', ' ', '*', '日', '%',
        'a.b', '+', '?']
RES = [r'[a-c]+', r'\d+', r'x*', r'[^/]+', r'(a|b)c?', r'a+(?=b)', r'\w+', r'[a-z]{2}', r'.', r'(?:ab)+', r'.*', r'[^/]*',
       r'\d{1,2}(?!\d)', r'\s', r'[A-C]+', r'\D+', r'\W', r'[a-c]+ ', r'[a-c]{1,9}b', r'[a-c]{1,9}c', r'[a-c]{1,9}',
       r'\(\w\)', r'\(?a\)*', r'a\)', r'x([a-c])', r'\\?a', r'\([a-c]', r'x(a)|(b)|(ab)', r'x(\d)']
# overlapping alternatives, ten and more of them, nested and unused groups, none at all; groups that may stay empty
REXES = [r'(a)|(b)|(ab)', r'(foo)|(bar)|(baz)', r'(aa)|(a)', r'[a-c]+', r'x(\d+)', r'(?:(a)|b)c?', r'((a)|b)', r'(a*)(b)?',
         '|'.join('(%s)' % ch for ch in 'abcdefghijkl'), r'(\d)|([ab]+)', r'(1)|(2)|(3)|(12)', r'(\()|(\))|(a)', r'a|(b)', r'(<)|([>b])', r'([a-c])', r'(\d)']
NAMES = ['p', 'q', 'r', 'x1', 'id_', 'k', 'self', 'name', 'app']


# text without a meaning in rules, but with one elsewhere (percent escapes, formats, regular expressions, markup)
ODD = ['%25', '%41', '%s', '%2F', '%2e%2E', '%', '%%', '&amp;', '#', '$', '^', '|', ';', '=', '@', '!', '~', ',', '"', "'", '%7Bx%7D', '..', '[a]', '\\1', 'a b', '+', '?x=1', '&', '%C3%A9', '%(a)s', '$1', '\u0301', '\xdf', '\ufb01', '\u0130']
SAFE = re.compile('[A-Za-z0-9_.-]+')


def word_lit(rng):
    """literal text made of what the code knows, free of characters with a meaning in rules"""
    k = rng.random()
    if k < .4:
        return rng.choice(ODD)
    if k < .55:
        return rng.choice('ab1') * AD.number(rng, 130, 1)
    m = SAFE.findall(AD.word(rng))
    return rng.choice(m) if m else 'w'


def word_name(rng):
    m = re.findall('[A-Za-z_][A-Za-z0-9_]*', AD.word(rng))
    return rng.choice(m) if m else 'w'


def word_value(rng, filt):
    n = AD.number(rng)
    if filt == 'int':
        return str(n)
    if filt == 'float':
        return '%d.%d' % (n, AD.number(rng, 1000))
    k = rng.random()
    return AD.word(rng) if k < .5 else str(n) if k < .7 else rng.choice(['a', 'ab', 'x', '\xe9']) * AD.number(rng, 400 if k < .97 else 9000)


def gen_ast(rng, lits=LITS, maxparts=5, filters=('int', 'float', 're', 'path'), p_slash=0.6, trailing=0.0,
            anon=0.15, res=RES):
    n = rng.randint(0, maxparts)
    if maxparts > 3 and rng.random() < .01:
        n = AD.number(rng, 24)
    ast = []
    names = NAMES[:]
    rng.shuffle(names)
    if rng.random() < .1:
        w = word_name(rng)
        if w not in names:
            names.append(w)
    last_path = False
    for i in range(n):
        if ast and rng.random() < p_slash and not (ast[-1][0] == 'lit' and ast[-1][1].endswith('/')):
            ast.append(lit('/'))
            last_path = False
        if rng.random() < 0.5 or last_path:
            ast.append(lit(rng.choice(lits) if rng.random() < .94 else word_lit(rng)))
            last_path = False
        else:
            nm = None if rng.random() < anon else (names.pop() if names else None)
            if rng.random() < 0.45 or not filters:
                ast.append(par(nm))
            else:
                f = rng.choice(filters)
                ast.append(par(nm, f, rng.choice(res) if f == 're' else gen_rex(rng, res) if f == 'rex' else None))
                last_path = f == 'path'   # a wildcard directly after :path is not generated
    ast = norm(ast)
    if ast and ast[-1][0] == 'lit':
        t = ast[-1][1].rstrip('/')
        if rng.random() < trailing:
            t += '/'
        ast[-1] = ('lit', t)
        ast = norm(ast)
    if ast and ast[0][0] == 'lit':
        ast[0] = ('lit', ast[0][1].lstrip('/'))
        ast = norm(ast)
    # "path" directly followed by a wildcard is left out (its mask would be read off the wildcard's text)
    for a, b in zip(ast, ast[1:]):
        if a[0] == 'par' and a[2] == 'path' and b[0] == 'par':
            return gen_ast(rng, lits, maxparts, filters, p_slash, trailing, anon, res)
    # '*' at the very end has a meaning of its own in remove()
    return ast


def long_ast(rng, n=None):
    """a rule with many wildcards, named, anonymous, or some of each"""
    n = n or (rng.randint(6, 26) if rng.random() < .8 else AD.number(rng, 60, 1))
    style = rng.choice(['anon', 'anon', 'named', 'mixed', 'anon-first', 'named-first'])
    sep = rng.choice(['/', '/', '/', '-', '/x/', '.'])
    flt = rng.choice([None, 'int', 're', 'mixed'])
    ast = [lit(rng.choice(['long/', 'x']))]
    for i in range(n):
        if i:
            ast.append(lit(sep))
        named = {'anon': False, 'named': True, 'mixed': rng.random() < .5, 'anon-first': i >= n // 2, 'named-first': i < n // 2}[style]
        f = flt if flt != 'mixed' else rng.choice([None, 'int', 're'])
        if not named and f is None:
            f = 're'
        ast.append(par('w%d' % i if named else None, f, rng.choice(['[a-c]+', '[^/.-]+', '[0-9a-z]']) if f == 're' else None))
    return ast


def gen_rex(rng, res):
    a = rng.choice(REXES) if rng.random() < .8 else rng.choice(REXES[:2])
    if rng.random() < .15:
        a = rng.choice(res)
    n = re.compile(a).groups
    return a if rng.random() < .45 else '%s\n%d' % (a, rng.randint(1, n) if n and rng.random() < .95 else n + 1)


def gen_rule(rng, **kw):
    flavour = kw.pop('flavour', None)
    while True:
        ast = gen_ast(rng, **kw)
        text, spelled = spell(rng, ast, flavour)
        if text is None:
            continue
        return Rule(ast, text, spelled)


VALUES = {
    None: ['a', 'b', 'ab', 'foo', '12', 'é', 'a b', 'a\rb', '\r', 'x', '{', ':', 'a.b', '-', '日本', '\x00', '\n', '%2F', '', '*',
           'fo', 'abc', '?', '\r\n', '+'],
    'int': ['0', '12', '-5', '007', '-0', '١٢', '9' * 30, '1'],
    'float': ['1.5', '-2', '3.0', '00.10', '1.', '0.00001', '123456789012345678901234', '7'],
    're': ['a', 'b', 'abc', 'xx', '', 'ab', '12', 'ac', '(a)', 'a)', '(1)', '(a', 'xb', '\\a', 'zz', 'aab', 'a/b', '\r', ' ', 'AB', 'A', 'ab ', '+', 'aC', 'abcabcabcabcb'],
    'rex': ['a', 'b', 'ab', 'foo', 'bar', 'baz', 'aa', 'abc', 'x12', 'x1', 'ac', 'bc', 'c', 'j', 'k', 'l', 'd', '1', '2', '12', '3', '(', ')',
            '', '<', '>', 'aab', 'i', '<1>', '1a'],
    'path': ['a', 'a/b', 'x//y', 'é/1', 'a b/c', '\r', 'a/\r/b', 'foo'],
}


def fill(rng, rule):
    out = []
    for p in rule.parts:
        if p[0] == 'lit':
            out.append(p[1])
        else:
            f = p[2][0]
            if rng.random() < 0.12:
                f = rng.choice([None, 'int', 'float', 're', 'path', 'rex'])
            out.append(rng.choice(VALUES[f]) if rng.random() < .97 else word_value(rng, f))
    return ''.join(out)


CHARS = ['/', 'a', 'b', '1', '\r', '\n', 'é', '-', '.', 'x', ' ', '\x00', '\x7f', 'c', '0', 'f', 'o', '日', '\u2028']


def mutate(rng, s):
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.randint(0, 5)
        i = rng.randint(0, len(s))
        if k == 0:
            s = s[:i] + rng.choice(CHARS) + s[i:]
        elif k == 1 and s:
            i = min(i, len(s) - 1)
            s = s[:i] + s[i + 1:]
        elif k == 2 and s:
            i = min(i, len(s) - 1)
            s = s[:i] + rng.choice(CHARS) + s[i + 1:]
        elif k == 3:
            s = s[:i] + '/' + s[i:]
        elif k == 4:
            segs = s.split('/')
            j = rng.randrange(len(segs))
            segs[j] = rng.choice(VALUES[None]) if rng.random() < .95 else AD.word(rng)
            s = '/'.join(segs)
        else:
            s = s[:i]
    return s


def gen_path(rng, rules):
    k = rng.random()
    if rules and k < 0.85:
        s = fill(rng, rng.choice(rules))
        if rng.random() < 0.4:
            s = mutate(rng, s)
        if len(rules) > 1 and rng.random() < 0.1:
            t = fill(rng, rng.choice(rules))
            i, j = rng.randint(0, len(s)), rng.randint(0, len(t))
            s = s[:i] + t[j:]
    else:
        s = ''.join(rng.choice(CHARS) for _ in range(rng.randint(0, 8)))
    s = '/' + s
    if rng.random() < 0.1:
        s += '/'
    return s
