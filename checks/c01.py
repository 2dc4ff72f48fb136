"""C01: the router selects what a plain rule-by-rule matcher selects, and binds exactly the rule's wildcards."""
import itertools
import re

from vlib import autodict as AD
from vlib import routes as R
from vlib import wsgi as W

W.NOISE = True
W.AMBIENT = True
PID = 'C01'
LEVEL = 'exploration'
RULE = ('random and small-universe rule sets (every syntax flavour, shared prefixes, several rules per pattern) resolved on '
        'random, derived, mutated and all-short paths; a case is (rule texts+methods, path, method); non-trivial when the '
        'rule set is non-empty and at least one rule matches or a rule shares a non-empty prefix with the path')
REQUIRED = ('matched', 'not_found', 'backtracked', 'served_over_wsgi', 'cr_in_path', 'shared_pattern_hit',
            'competing_candidates', 'ladder_paths', 'twin_paths', 'long_rule_paths', 'crowd_paths', 'flavour_colon', 'flavour_angle', 'flavour_curly', 'converted_int', 'converted_float')
ASSUMPTIONS = [
    'a wildcard written directly after a :path wildcard is not generated (its mask is read off the rule text that follows)',
    'two rules with different filters at one position exclude each other; a rule the router refuses is not registered',
    'between a rule with a selector and one without, on the same rex wildcard, either may win (the property does not order them)',
    'both rule and path are compared without outer slashes, as RadiRouter.resolve documents',
]

METHODS = ['GET', 'POST', 'PUT', 'DELETE', 'PATCH']


class Reg:
    __slots__ = ('rule', 'method', 'tag')

    def __init__(self, rule, method, tag):
        self.rule, self.method, self.tag = rule, method, tag


def spelling_of(rule):
    i = [t for t in rule.toks]
    k = 0
    out = []
    for t in i:
        if R.is_wild(t):
            out.append((t, tuple(rule.spelled[k]) if rule.spelled and rule.spelled[k] else None))
            k += 1
        else:
            out.append(t)
    return out


def spelled_conflict(a, b):
    """first difference is the same filter written in two ways (int / int()): refusing is allowed"""
    for x, y in zip(spelling_of(a), spelling_of(b)):
        if x != y:
            return isinstance(x, tuple) and isinstance(y, tuple) and isinstance(x[0], tuple) and isinstance(y[0], tuple)
    return False


def build(ctx, specs, app, log):
    """Register; returns list of Reg that the router accepted."""
    regs = []
    for tag, (rule, method) in enumerate(specs):
        def handler(_tag=tag, **kw):
            log.append((_tag, kw))
            return 'ok'
        # kwargs named like the default would collide; wildcard names never start with '_tag'
        legal = not any(R.conflict(rule, g.rule) or spelled_conflict(rule, g.rule) for g in regs)
        dup = any(g.rule.toks == rule.toks and g.method == method for g in regs)
        try:
            app.route(rule.text, method, handler)
        except Exception as e:
            ctx.obs['registration_refused'] += 1
            if legal and not dup and not rule.outer_slash and not any(g.rule.outer_slash for g in regs):
                ctx.violation('legal-rule-refused', 'rule %r refused beside %r: %r' % (
                    rule.text, [g.rule.text for g in regs], e), case_of(specs, None, None))
            continue
        regs.append(Reg(rule, method, tag))
        t = rule.text
        ctx.obs['flavour_colon'] += ':' in t.replace('{:', '').replace('<:', '')
        ctx.obs['flavour_angle'] += '<' in t
        ctx.obs['flavour_curly'] += '{' in t
    return regs


def case_of(specs, path, method, via=None):
    return dict(specs=[(list(map(list, r.full_ast)), r.text, m) for r, m in specs], path=path, method=method, via=via)


def same(a, b):
    if a.keys() != b.keys():
        return False
    return all(type(a[k]) is type(b[k]) and repr(a[k]) == repr(b[k]) for k in a)


def expected(regs, path, method):
    """list of acceptable outcomes: ('404',) / ('405',) / (tag, kwargs)"""
    best = R.select([g.rule for g in regs], path)
    if not best:
        return [('404',)], best
    outs = []
    # rules with one and the same pattern form one route; ties otherwise are free
    groups = {}
    for r, v in best:
        groups.setdefault(r.toks, []).append((r, v))
    for toks, items in groups.items():
        hit = None
        for g in regs:
            for r, v in items:
                if g.rule is r and g.method == method:
                    hit = (g.tag, r.named(v))
        outs.append(hit or ('405',))
    return outs, best


def classify(ctx, regs, path, method, exp, got, specs, via):
    # known mechanism: a rule ending in '/' is dead because resolve() strips the slash off the path
    if any(g.rule.outer_slash for g in regs):
        alive = [g for g in regs if not g.rule.outer_slash]
        exp2, _ = expected(alive, path, method)
        if ok(exp2, got):
            ctx.violation('outer-slash-rule-never-matches',
                          'rules %r path %r method %s: expected %r, got %r' % (
                              [(g.rule.text, g.method) for g in regs], path, method, exp, got),
                          case_of(specs, path, method, via))
            return
    e = exp[0]
    if got[0] == 'raise':
        key = 'resolve-raises-' + re.match(r'\w*', got[1]).group()
    elif e == ('404',):
        key = 'spurious-match'
    elif got == ('404',):
        key = 'false-404'
    elif got[0] != e[0]:
        key = 'wrong-rule'
    else:
        key = 'wrong-params'
    if '\r' in path:
        key += '-cr'
    ctx.violation(key, 'rules %r\npath %r method %s via %s\nexpected %r\ngot      %r' % (
        [(g.rule.text, g.method) for g in regs], path, method, via, exp, got), case_of(specs, path, method, via))


def ok(exp, got):
    for e in exp:
        if e[0] == got[0]:
            if len(e) == 1:
                return True
            if same(e[1], got[1]):
                return True
    return False


def probe(ctx, app, regs, log, path, method, specs, via):
    exp, best = expected(regs, path, method)
    del log[:]
    if via == 'wsgi':
        env = W.environ(method, path)
        res = W.call(app, env)
        ctx.obs['served_over_wsgi'] += 1
        if res.escaped is not None:
            got = ('raise', repr(res.escaped))
        elif res.code == 200 and len(log) == 1:
            got = log[0]
        elif res.code in (404, 405):
            got = (str(res.code),)
        else:
            got = ('raise', 'status %s log %r errors %s' % (res.status, log, W.errors_text(env)[-300:]))
    else:
        try:
            ep, err = app.router.resolve(path, [method])
        except Exception as e:
            got = ('raise', repr(e))
        else:
            if ep:
                try:
                    ep[0](**ep[1])
                    got = log[0] if len(log) == 1 else ('raise', 'handler calls %r' % (log,))
                except TypeError as e:
                    got = ('raise', repr(e))
            else:
                got = (str(err[0]),)
    ctx.obs['not_found' if got == ('404',) else 'matched' if isinstance(got[0], int) else 'other'] += 1
    if best:
        if len(best[0][0].names) and isinstance(got[0], int):
            for v in got[1].values():
                if type(v) in (int, float):
                    ctx.obs['converted_' + type(v).__name__] += 1
    if '\r' in path:
        ctx.obs['cr_in_path'] += 1
    ms = [g for g in regs if g.rule.match(path.strip('/')) is not None]
    if len({g.rule.toks for g in ms}) > 1:
        ctx.obs['competing_candidates'] += 1
    if len(ms) > 1 and len({g.rule.toks for g in ms}) < len(ms):
        ctx.obs['shared_pattern_hit'] += 1
    if best and not isinstance(best[0][0], int):
        # a literal branch that matched further than the winner's first wildcard and then died
        w = next((i for i, t in enumerate(best[0][0].toks) if R.is_wild(t)), None)
        if w is not None:
            p = path.strip('/')
            for g in regs:
                t = g.rule.toks
                if g.rule not in [b[0] for b in best] and len(t) > w and t[:w] == best[0][0].toks[:w] \
                        and isinstance(t[w], str) and p[w:w + 1] == t[w]:
                    ctx.obs['backtracked'] += 1
                    break
    ctx.seen((tuple((g.rule.text, g.method) for g in regs), path, method), bool(regs) and (bool(best) or any(
        g.rule.toks[:1] == tuple(path.strip('/')[:1]) for g in regs)),
        cls='%s%s' % (via, '-match' if best else '-miss'))
    if not ok(exp, got):
        classify(ctx, regs, path, method, exp, got, specs, via)


def gen_specs(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 12]) if rng.random() < .985 else AD.number(rng, 60, 1)
    filters = rng.choice([('int', 'float', 're', 'path'), ('int', 're'), (), ('path', 're'), ('int',), ('rex',), ('rex', 'int', 're')])
    lits = rng.choice([R.LITS, ['a', 'ab', 'abc', 'b', '/', '1'], ['a', 'b', 'x', '-']])
    res = rng.choice([R.RES, [r'[a-c]+', r'\d+'], [r'x*', r'[^/]+']])
    anon = rng.choice([0.0, 0.15, 0.5])
    trailing = 0.3 if rng.random() < 0.1 else 0.0
    rules = []
    for _ in range(n):
        k = rng.random()
        if rules and k < 0.25:      # the same pattern with other names (and maybe another spelling)
            base = rng.choice(rules)
            names = R.NAMES[:]
            rng.shuffle(names)
            ast = [e if e[0] == 'lit' else ('par', names.pop() if names and (e[1] is not None or rng.random() < .2) else None, e[2], e[3])
                   for e in base.full_ast]
        elif rules and k < 0.6:     # share a prefix, vary the rest
            base = rng.choice(rules).full_ast
            cut = rng.randint(0, len(base))
            head = list(base[:cut])
            used = {e[1] for e in head if e[0] == 'par'}
            tail = R.gen_ast(rng, lits, 4, filters, anon=anon, res=res)
            tail = [e if e[0] == 'lit' or e[1] is None or e[1] not in used else ('par', e[1] + '_%d' % i, e[2], e[3])
                    for i, e in enumerate(tail)]
            if head and head[-1][0] == 'lit' and rng.random() < .5:
                s = head[-1][1]
                head[-1] = ('lit', s[:rng.randint(0, len(s))])
            ast = R.norm(head + ([('lit', '/')] if rng.random() < .5 and head else []) + tail)
            if any(a[0] == 'par' and a[2] == 'path' and b[0] == 'par' for a, b in zip(ast, ast[1:])):
                continue
            if ast and ast[-1][0] == 'lit' and not trailing:
                ast[-1] = ('lit', ast[-1][1].rstrip('/'))
            if ast and ast[0][0] == 'lit':
                ast[0] = ('lit', ast[0][1].lstrip('/'))
            ast = R.norm(ast)
            if ast and ast[-1][0] == 'lit' and ast[-1][1].endswith('/') and not trailing:
                continue
        else:
            ast = R.gen_ast(rng, lits, 5, filters, anon=anon, trailing=trailing, res=res)
        text, sp = R.spell(rng, ast)
        if text is None:
            continue
        rules.append(R.Rule(ast, text, sp))
    used = {}
    specs = []
    for r in rules:
        left = used.setdefault(r.toks, METHODS[:])
        if not left:
            continue
        specs.append((r, left.pop(0)))
    return specs


def ladder_specs(rng):
    """many places at which literal text competes with a wildcard, and only a few of the branches lead anywhere"""
    n = rng.choice([3, 5, 9, 14]) if rng.random() < .6 else AD.number(rng, 70, 2)
    seg = rng.choice(['a/', 'a/', 'ab', 'a-', '1/'])
    specs = []

    def add(ast, flavour='{}'):
        ast = R.norm(ast)
        t, sp = R.spell(rng, ast, flavour)
        if t is not None:
            specs.append((R.Rule(ast, t, sp), 'GET'))
    filt = rng.choice([(None, None), ('re', '[^/]+'), ('re', r'\w+')])
    if seg == '1/' and rng.random() < .5:
        filt = ('int', None)
    ks = sorted(set(range(n)) if n < 40 and rng.random() < .6 else rng.sample(range(n), min(n, rng.randrange(1, 30))))
    live = rng.choice(ks)
    add([('lit', seg * n + 'x')])
    for k in ks:
        for tail in ({'end%d' % k, 'x'} if k == live else {'end%d' % k}):
            add([('lit', seg * k), ('par', 'p', *filt), ('lit', '/' + seg * (n - k - 1) + tail if seg.endswith('/') else '/' + tail)])
    if rng.random() < .4:
        add([('par', 'w', 'path', None)])
    base = seg * n
    paths = ['/' + base + t for t in ('x', 'y', 'xx', '', 'end%d' % live, 'end%d' % rng.choice(ks))]
    paths += ['/' + seg * rng.randrange(n + 1) + rng.choice(['zz/', 'b/', '2/']) + seg * rng.randrange(n) + rng.choice(['x', 'end%d' % rng.choice(ks), 'y']) for _ in range(6)]
    paths += ['/' + seg * (live + d) + rng.choice(['q', '7']) + '/' + (seg * (n - live - 1) if seg.endswith('/') else '') + t for d in (0, 1, -1) for t in ('x', 'end%d' % live) if live + d >= 0]
    rng.shuffle(specs)
    return specs, [p.rstrip('/') or '/' for p in paths]


def twin_specs(rng):
    """rules, filters and paths that are the same up to one character somewhere, at the end, in the middle, in their letter case"""
    n = rng.choice([2, 8, 16, 32, 33, 64, 100]) if rng.random() < .6 else AD.number(rng, 600, 1)
    base = [rng.choice('abcdefgh') for _ in range(n)]
    at = rng.choice([0, n - 1, n - 1, n // 2, rng.randrange(n)])
    words = []
    for _ in range(rng.choice([2, 2, 3])):
        w = base[:]
        w[at] = rng.choice(['x', 'y', 'z', 'X', w[at].upper(), '1', '\xe9', w[at] + w[at]])
        w = ''.join(w)
        if rng.random() < .15:
            w += rng.choice(['a', w[-1]])
        if w not in words:
            words.append(w)
    specs, paths = [], []
    kind = rng.choice(['re', 're', 're', 'rex', 'lit', 'value', 'after', 'name'])
    for i, w in enumerate(words):
        pre = rng.choice(['%s' % 'xyz'[i], 'a%d' % i, 'a' * (i + 1)])
        if kind == 're':
            ast = [('lit', pre + '/'), ('par', 'p', 're', rng.choice(['%s', '(?:%s)', '%s+', '%s?', '(?:%s|q)']) % w)]
        elif kind == 'rex':
            ast = [('lit', pre + '/'), ('par', 'p', 'rex', rng.choice(['(%s)|(q)', '(q)|(%s)', '%s']) % w)]
        elif kind == 'lit':
            ast = [('lit', w)] + ([('lit', '/'), ('par', 'p', None, None)] if rng.random() < .5 else [])
        elif kind == 'value':
            ast = [('par', 'p', rng.choice([None, None, 'path']), None)]
        elif kind == 'after':
            ast = [('par', 'p', 're', '[^/]+?(?=%s)' % w), ('lit', w)] if i == 0 else [('lit', 'q/'), ('par', 'p', 'path', None), ('lit', '/' + w)]
        else:
            ast = [('lit', pre + '/'), ('par', 'n' + ''.join(c for c in w if c.isalnum() and c.isascii()), None, None)]
        t, sp = R.spell(rng, ast)
        if t is None:
            continue
        r = R.Rule(ast, t, sp)
        if any(r.toks == o.toks for o, _ in specs):
            continue
        specs.append((r, 'GET'))
        for v in words + [''.join(base)]:
            if kind in ('re', 'rex', 'name'):
                paths.append('/%s/%s' % (pre, v))
            elif kind == 'lit':
                paths += ['/' + v, '/' + v + '/7']
            elif kind == 'value':
                paths += ['/' + v, '/' + v + '/' + v]
            else:
                paths += ['/q/a/' + v, '/a' + v, '/q/' + v + '/' + v]
    return specs, sorted(set(paths))


def crowd_specs(rng):
    """one table of many rules"""
    n = rng.choice([40, 120, 300]) if rng.random() < .7 else AD.number(rng, 2100, 30)
    specs, paths = [], []
    for i in range(n):
        k = i % 5
        a = [('lit', '%s%d' % ('s' if k == 1 else 'r', i % 97 if i % 2 else i))]
        if k == 1:
            a += [('lit', '/'), ('par', 'p%d' % i, 'int', None)]
        elif k == 2:
            a += [('lit', '/'), ('par', 'n', None, None), ('lit', '/e%d' % i)]
        elif k == 3:
            a += [('lit', '/x%d' % (i // 7))]
        ast = R.norm(a)
        t, sp = R.spell(rng, ast, '{}')
        if any(r.toks == R.Rule(ast, t, sp).toks for r, _ in specs[-200:]):
            continue
        specs.append((R.Rule(ast, t, sp), 'GET'))
    seen, out = set(), []
    for r, m in specs:
        if r.toks not in seen:
            seen.add(r.toks)
            out.append((r, m))
    return out


# ------------------------------------------------------------- small universe
def small_rules():
    parts = [('lit', 'a'), ('lit', 'ab'), ('lit', '/'), ('par', 'N', None, None), ('par', 'N', 'int', None),
             ('par', 'N', 're', '[ab]+'), ('par', 'N', 'path', None), ('lit', 'b')]
    out = []
    for n in range(0, 4):
        for combo in itertools.product(parts, repeat=n):
            if n and (combo[0] == ('lit', '/') or combo[-1] == ('lit', '/')):
                continue
            if any(x == ('lit', '/') and y == ('lit', '/') for x, y in zip(combo, combo[1:])):
                continue
            if any(x[0] == 'par' and x[2] == 'path' and y[0] == 'par' for x, y in zip(combo, combo[1:])):
                continue
            ast = []
            for i, e in enumerate(combo):
                ast.append(('par', 'n%d' % i, e[2], e[3]) if e[0] == 'par' else e)
            out.append(R.norm(ast))
    seen, uniq = set(), []
    for a in out:
        if repr(a) not in seen:
            seen.add(repr(a))
            uniq.append(a)
    return uniq


def short_paths(maxlen):
    for n in range(maxlen + 1):
        for t in itertools.product('ab/1\r', repeat=n):
            yield '/' + ''.join(t)


def shards(ctx):
    return [('rand', i) for i in range(ctx.scale(8, 16))] + [('small', i) for i in range(8)]


REX = [
    # rules (handler = index), [(path, winner or None, kwargs)]
    (['/foo/{s:rex((foo)|(bar)|(baz))[2]}baz/foo', '/foo/{t:rex((foo)|(bar)|(baz))[1]}/x', '/foo/{u:rex((foo)|(bar)|(baz))[3]}{n:int}'],
     [('/foo/barbaz/foo', 0, {'s': 'bar'}), ('/foo/foo/x', 1, {'t': 'foo'}), ('/foo/baz12', 2, {'u': 'baz', 'n': 12}),
      ('/foo/bar/x', None, None), ('/foo/foobaz/foo', None, None), ('/foo/foo12', None, None), ('/foo/2baz/foo', None, None),
      ('/foo/1/x', None, None), ('/foo/qux', None, None)]),
    (['/x/{v.rex([a-c]+)}-{w}', '/x/abc-lit'],
     [('/x/abc-lit', 1, {}), ('/x/abc-li', 0, {'v': 'abc', 'w': 'li'}), ('/x/d-li', None, None), ('/x/a-', None, None)]),
    (['/p/{k:rex(x(\\d+))}', '/p/x', '/p/xy'],
     [('/p/x', 1, {}), ('/p/xy', 2, {}), ('/p/x1', 0, {'k': '1'}), ('/p/xz', None, None)]),
]


def rex_probe(ctx, rules, path, winner, kw):
    app, log = W.fresh_app(), []
    for i, t in enumerate(rules):
        app.router.add(t, 'GET', lambda _i=i, **k: log.append((_i, k)) or 'ok')
    res = W.call(app, W.environ('GET', path))
    got = log[0] if res.code == 200 and len(log) == 1 else (str(res.code),)
    exp = (winner, kw) if winner is not None else ('404',)
    ctx.obs['selector_probes'] += 1
    ctx.seen((tuple(rules), path), True, cls='rex')
    if got != exp:
        ctx.violation('selector-rule', 'rules %r path %r: expected %r, got %r' % (rules, path, exp, got),
                      dict(rex=list(rules), path=path, winner=winner, kw=kw))


def run_shard(ctx, shard):
    kind, idx = shard
    rng = ctx.rng
    if kind == 'rand':
        if not idx:
            # the witness of the known finding
            specs = [(R.Rule([('lit', 'foo/')], '/foo/'), 'GET')]
            app, log = W.fresh_app(), []
            probe(ctx, app, build(ctx, specs, app, log), log, '/foo/', 'GET', specs, 'resolve')
            for rules, probes in REX:
                for rr in itertools.permutations(range(len(rules))):
                    for path, winner, kw in probes:
                        rex_probe(ctx, [rules[i] for i in rr], path, winner if winner is None else rr.index(winner), kw)
        for _ in range(ctx.scale(3000, 60000)):
            specs = gen_specs(rng)
            app = W.fresh_app()
            log = []
            regs = build(ctx, specs, app, log)
            rules = [g.rule for g in regs]
            for _ in range(30):
                path = R.gen_path(rng, rules)
                if regs and rng.random() < .8:
                    best = R.select(rules, path)
                    pool = [g.method for g in regs if any(g.rule is b[0] for b in best)] or METHODS
                    method = rng.choice(pool)
                else:
                    method = rng.choice(METHODS)
                via = 'wsgi' if rng.random() < .2 else 'resolve'
                probe(ctx, app, regs, log, path, method, specs, via)
        for _ in range(ctx.scale(50, 600)):
            specs, paths = ladder_specs(rng)
            app, log = W.fresh_app(), []
            regs = build(ctx, specs, app, log)
            for path in paths:
                ctx.obs['ladder_paths'] += 1
                probe(ctx, app, regs, log, path, 'GET', specs, 'wsgi' if rng.random() < .1 else 'resolve')
        for _ in range(ctx.scale(80, 900)):
            specs, paths = twin_specs(rng)
            app, log = W.fresh_app(), []
            regs = build(ctx, specs, app, log)
            for path in paths:
                ctx.obs['twin_paths'] += 1
                probe(ctx, app, regs, log, path, 'GET', specs, 'wsgi' if rng.random() < .1 else 'resolve')
        for _ in range(ctx.scale(25, 300)):
            # many wildcards, and a rule that differs near the end
            ast = R.long_ast(rng)
            asts = [ast, ast[:-1] + [R.lit(rng.choice(['a', '1', 'zz']))] if rng.random() < .5 else ast[:rng.randrange(2, len(ast) + 1)] + [R.lit('/end')]]
            specs = []
            for a, m in zip(asts, ('GET', 'POST')):
                text, sp = R.spell(rng, a)
                if text is not None:
                    specs.append((R.Rule(R.norm(a), text, sp), 'GET' if rng.random() < .5 or not specs else m))
            if len({r.toks for r, _ in specs}) < len(specs):
                specs = specs[:1]
            app, log = W.fresh_app(), []
            regs = build(ctx, specs, app, log)
            for _ in range(8):
                path = R.gen_path(rng, [g.rule for g in regs])
                ctx.obs['long_rule_paths'] += 1
                probe(ctx, app, regs, log, path, 'GET', specs, 'wsgi' if rng.random() < .5 else 'resolve')
        for _ in range(ctx.scale(1, 6)):
            specs = crowd_specs(rng)
            regs = [Reg(r, m, i) for i, (r, m) in enumerate(specs)]
            app, log = W.fresh_app(), []
            for g in regs:
                app.route(g.rule.text, g.method, lambda _tag=g.tag, **kw: log.append((_tag, kw)) or 'ok')
            for _ in range(60):
                path = R.gen_path(rng, [g.rule for g in rng.sample(regs, 3)])
                ctx.obs['crowd_paths'] += 1
                probe(ctx, app, regs, log, path, 'GET', specs, 'resolve')
        # numbers beyond the interpreter's digit limit / float range
        for flt in ('int', 'float'):
            for digs in (400, 4300, 4301, 5000):
                for via in ('resolve', 'wsgi'):
                    specs = [(R.Rule([('lit', 'n/'), ('par', 'v', flt, None)], '/n/{v:%s}' % flt, [(flt, None)]), 'GET'),
                             (R.Rule([('lit', 'n/'), ('par', 'v', flt, None), ('lit', '/x')], '/n/{v:%s}/x' % flt,
                                     [(flt, None)]), 'GET')]
                    app, log = W.fresh_app(), []
                    regs = build(ctx, specs, app, log)
                    for p in ('/n/' + '7' * digs, '/n/-' + '7' * digs + '/x'):
                        probe(ctx, app, regs, log, p, 'GET', specs, via)
    else:
        uni = small_rules()
        paths = list(short_paths(ctx.scale(4, 6)))
        for _ in range(ctx.scale(120, 130)):
            asts = rng.sample(uni, rng.choice([2, 3, 3, 4]))
            specs = []
            for a in asts:
                t, sp = R.spell(rng, a, rng.choice(['<>', '{}']))
                if t is not None:
                    specs.append((R.Rule(a, t, sp), 'GET'))
            app, log = W.fresh_app(), []
            regs = build(ctx, specs, app, log)
            for p in paths:
                probe(ctx, app, regs, log, p, 'GET', specs, 'resolve')


def run_case(ctx, case):
    if 'rex' in case:
        return rex_probe(ctx, case['rex'], case['path'], case['winner'], case['kw'])
    specs = []
    for ast, text, m in case['specs']:
        specs.append((R.Rule([tuple(e) for e in ast], text), m))
    app, log = W.fresh_app(), []
    regs = build(ctx, specs, app, log)
    if case['path'] is not None:
        probe(ctx, app, regs, log, case['path'], case['method'], specs, case['via'])
