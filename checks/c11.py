"""C11: after any edit history the router answers like one freshly built from the survivors."""
import itertools

from vlib import routes as R
from vlib import wsgi as W

W.NOISE = True
W.AMBIENT = True
PID = 'C11'
LEVEL = 'exploration'
RULE = ('edit histories (add / overwrite / rejected add / remove by rule, name, object, pattern, prefix* / add and remove hooks): all '
        'histories up to a length over small universes, long random ones over generated universes; after an edit every probe path, '
        'name and rule is compared with a model of the survivors and (random part) with a freshly built router; a case is one '
        'history with its probes; non-trivial when at least two edits took effect')
REQUIRED = ('op_add', 'op_overwrite', 'op_rejected', 'op_remove_rule', 'op_remove_name', 'op_remove_prefix', 'op_add_hook',
            'op_remove_hook', 'hooks_fired', 'nested_hooks_fired', 'fresh_compared', 'hook_only_prefix_kept', 'names_checked', 'crowds')
ASSUMPTIONS = [
    'hooks at or below the prefix of a prefix-wildcard removal are unspecified until installed or removed again',
    'a rule is removed by a spelling with the filters it was registered with',
    'route removal through Route objects that are no longer registered is not exercised',
    'rules with a trailing slash are covered by the C01 known finding and not used here (hook rules with one are)',
]

BAD_RULES = ['/a/{x}/{x}', '/a/{y:int}/<y:int>', '/{', '/a<', '/a/{x:nosuch}', '/a/{x:re:[}', '/a/{x.re(}', '/ab\rc', '/{x!}', 'nolead',
             '/a/<x:int>b/<x>']


class Rec:
    __slots__ = ('rule', 'methods')

    def __init__(self, rule):
        self.rule = rule
        self.methods = {}


class World:
    def __init__(self, rules, hook_rules, app=None):
        self.app = app or W.fresh_app()
        for code in (404, 405):
            self.app.error(code)(lambda res: '')     # cheap error pages
        self.router = self.app.router
        self.rules, self.hook_rules = rules, hook_rules
        self.routes = {}         # toks -> Rec
        self.names = {}          # name -> toks
        self.hooks = {}          # toks -> (tag, Rule)
        self.unsure = {}         # toks -> Rule : hooks that may or may not be there
        self.unsure_p = {}       # the same for partial hooks
        self.phooks = {}         # partial (404) hooks: toks -> (tag, Rule)
        self.n = 0
        self.log = []
        self.ops = []
        self.effective = 0
        self.used_names = set()
        self.partial_used = False

    def handler(self, tag):
        def h(**kw):
            self.log.append(('h', tag, kw))
            return 'x'
        return h

    def hook(self, tag):
        def k(prefix):
            self.log.append(('k', tag, prefix))
        return k

    def phook(self, tag):
        def k(prefix, values):
            self.log.append(('p', tag, prefix, values))
            return 'partial'
        return k


def unsure(w):
    return list(w.unsure.values()) + list(w.unsure_p.values())


def occupied(w, skip=None):
    out = [rec.rule for rec in w.routes.values()]
    out += [r for _, r in w.hooks.values()]
    out += [r for _, r in w.phooks.values()]
    return out


def spelled_differs(a, b):
    sa, sb = iter(a.spelled or []), iter(b.spelled or [])
    for x, y in zip(a.toks, b.toks):
        px = next(sa, None) if R.is_wild(x) else None
        py = next(sb, None) if R.is_wild(y) else None
        if x != y:
            return False
        if px != py:
            return True
    return False


def must_reject(w, rule):
    return any(R.conflict(rule, o) for o in occupied(w))


def may_reject(w, rule):
    return any(R.conflict(rule, o) or spelled_differs(rule, o) for o in occupied(w)) or any(
        R.conflict(rule, o) or spelled_differs(rule, o) for o in unsure(w))


class Stop(Exception):
    pass


def case(w, note=None):
    return dict(rules=[(list(map(list, r.full_ast)), r.text, r.spelled) for r in w.rules],
                hook_rules=[(list(map(list, r.full_ast)), r.text, r.spelled) for r in w.hook_rules], ops=list(w.ops), note=note)


def apply(ctx, w, op):
    """Apply op to router and model. Raises Stop when the history cannot go on."""
    w.ops.append(op)
    kind = op[0]
    router = w.router

    def viol(key, msg):
        ctx.violation(key, '%s\nrules %r\nhook rules %r\nops %r' % (msg, [r.text for r in w.rules],
                                                                   [r.text for r in w.hook_rules], w.ops), case(w))
        raise Stop()

    if kind == 'add':
        _, ri, methods, name, over = op
        rule = w.rules[ri]
        w.n += 1
        tag = w.n
        rec = w.routes.get(rule.toks)
        ms = [m.upper() for m in methods]
        dup = not over and rec is not None and set(ms) & set(rec.methods)
        nameclash = not over and name is not None and name in w.names and w.names[name] != rule.toks
        must = bool(dup or nameclash or must_reject(w, rule))
        if name:
            w.used_names.add(name)
        try:
            router.add(rule.text, methods, w.handler(tag), name, overwrite=over)
        except Exception as e:
            ctx.obs['op_rejected'] += 1
            if not must and not may_reject(w, rule):
                viol('add-refused', 'add %r refused: %r' % (rule.text, e))
            return
        if must:
            if dup or nameclash:
                viol('add-should-be-rejected', 'add %r accepted although %s' % (
                    rule.text, 'the method is taken' if dup else 'the name is taken'))
            raise Stop()      # conflicting filters accepted: what the router means now is unspecified here (C01 covers it)
        ctx.obs['op_overwrite' if over else 'op_add'] += 1
        w.effective += 1
        if rec is None:
            rec = w.routes[rule.toks] = Rec(rule)
        for m in ms:
            rec.methods[m] = (tag, rule)
        if name:
            w.names[name] = rule.toks
    elif kind == 'bad':
        try:
            router.add(BAD_RULES[op[1]], 'GET', w.handler(0))
        except Exception:
            ctx.obs['op_rejected'] += 1
        else:
            raise Stop()
    elif kind == 'badhook':
        try:
            router.add_hook(BAD_RULES[op[1]], w.hook(0))
        except Exception:
            ctx.obs['op_rejected'] += 1
        else:
            raise Stop()
    elif kind in ('rm', 'rm_obj', 'rm_pat'):
        rule = w.rules[op[1]]
        if rule.text.endswith('*') and kind != 'rm_obj':
            return
        if rule.toks not in w.routes and any(R.conflict(rule, o) for o in occupied(w) + unsure(w)):
            return
        if kind == 'rm_obj' and rule.toks not in w.routes:
            return
        try:
            if kind == 'rm':
                w.app.remove_route(rule.text)
            elif kind == 'rm_obj':
                obj = router[{w.routes[rule.toks].rule.text}]
                if obj is None:
                    viol('lookup-by-rule', 'router[{%r}] is None' % rule.text)
                router.remove(obj)
            else:
                router.remove(route_pattern=router.to_pattern(rule.text))
        except Exception as e:
            viol('remove-raises', 'remove of %r raised %r' % (rule.text, e))
        if rule.toks in w.routes:
            w.effective += 1
        drop(w, rule.toks)
        ctx.obs['op_remove_rule'] += 1
    elif kind == 'rm_name':
        name = op[1]
        toks = w.names.get(name)
        try:
            router.remove(name=name)
        except Exception as e:
            ctx.obs['op_rejected'] += 1
            if toks is not None:
                viol('remove-name-raises', 'remove(name=%r) raised %r' % (name, e))
            return
        if toks is not None:
            drop(w, toks)
            w.effective += 1
            ctx.obs['op_remove_name'] += 1
    elif kind == 'rm_prefix':
        text, toks = op[1], tuple(tuple_tok(t) for t in op[2])
        if any(isinstance(t, tuple) for t in toks) and any(
                R.conflict(P(toks), o) for o in occupied(w) + unsure(w)):
            return
        try:
            w.app.remove_route(text)
        except Exception as e:
            viol('remove-prefix-raises', 'remove(%r) raised %r' % (text, e))
        gone = [t for t in w.routes if t[:len(toks)] == toks]
        for t in gone:
            drop(w, t)
            w.effective += 1
        for t in [t for t in w.hooks if t[:len(toks)] == toks]:
            w.unsure[t] = w.hooks.pop(t)[1]
        for t in [t for t in w.phooks if t[:len(toks)] == toks]:
            w.unsure_p[t] = w.phooks.pop(t)[1]
        ctx.obs['op_remove_prefix'] += 1
        if any(t == toks[:len(t)] and len(t) < len(toks) for t in w.hooks):
            ctx.obs['hook_only_prefix_kept'] += 1
    elif kind in ('hook', 'phook'):
        rule = w.hook_rules[op[1]]
        w.n += 1
        must = must_reject(w, rule)
        try:
            if kind == 'hook':
                w.app.on_route(rule.text, w.hook(w.n))
            else:
                w.app.error(404, rule.text)(w.phook(w.n))
                w.partial_used = True
        except Exception as e:
            ctx.obs['op_rejected'] += 1
            if not must and not may_reject(w, rule):
                viol('hook-refused', 'hook %r refused: %r' % (rule.text, e))
            return
        if must:
            viol('conflicting-hook-accepted', 'hook %r accepted although a different filter lives at that position: %r' % (
                rule.text, [o.text for o in occupied(w) if R.conflict(rule, o)]))
        w.effective += 1
        (w.unsure if kind == 'hook' else w.unsure_p).pop(rule.toks, None)
        (w.hooks if kind == 'hook' else w.phooks)[rule.toks] = (w.n, rule)
        ctx.obs['op_add_hook'] += 1
    elif kind == 'rm_hook':
        rule = w.hook_rules[op[1]]
        if rule.toks not in w.hooks and any(R.conflict(rule, o) for o in occupied(w) + unsure(w)):
            return
        try:
            w.app.remove_route_hook(rule.text)
        except Exception as e:
            viol('remove-hook-raises', 'remove_hook(%r) raised %r' % (rule.text, e))
        if rule.toks in w.hooks:
            w.effective += 1
        w.hooks.pop(rule.toks, None)
        w.phooks.pop(rule.toks, None)
        w.unsure.pop(rule.toks, None)
        w.unsure_p.pop(rule.toks, None)
        ctx.obs['op_remove_hook'] += 1


class P:
    def __init__(self, toks):
        self.toks = toks


def tuple_tok(t):
    return t if isinstance(t, str) else ('w', tuple(t[1])) if t[0] == 'w' else tuple(t)


def drop(w, toks):
    w.routes.pop(toks, None)
    for n in [n for n, t in w.names.items() if t == toks]:
        del w.names[n]


def expect(w, path, method):
    best = R.select([rec.rule for rec in w.routes.values()], path)
    if not best:
        return ('404',), None
    rule = best[0][0]
    vals = best[0][1]
    rec = w.routes[rule.toks]
    if method not in rec.methods:
        return ('405', tuple(sorted(rec.methods))), rec
    tag, mrule = rec.methods[method]
    return ('call', tag, mrule.named(vals)), rec


def expect_hooks(w, rec, path):
    """list of (tag, prefix, certain)"""
    p = '/' + path.lstrip('/')
    s = path.strip('/')
    out = []
    for store, certain in ((w.hooks, True), (w.unsure, False)):
        for toks, v in store.items():
            if rec.rule.toks[:len(toks)] == toks:
                rule = v[1] if certain else v
                pos = rule.prefixes(s)
                out.append((len(toks), v[0] if certain else None, p[:1 + pos] if pos is not None else None, certain))
    out.sort(key=lambda t: (t[0], str(t[1])))
    return [(t[1], t[2], t[3]) for t in out]


def observe(app, log, path, method):
    del log[:]
    env = W.environ(method, path)
    res = W.call(app, env)
    if res.escaped is not None:
        return ('odd', repr(res.escaped)), []
    hooks = [e[1:] for e in log if e[0] == 'k']
    ph = [e for e in log if e[0] == 'p']
    calls = [e for e in log if e[0] == 'h']
    if ph:
        return ('partial', ph[0][1], ph[0][2], repr(ph[0][3])), hooks
    if res.code == 200 and len(calls) == 1:
        if log[-1] is not calls[0]:
            return ('odd', 'hook after handler %r' % (log,)), hooks
        return ('call', calls[0][1], calls[0][2]), hooks
    if res.code == 405:
        return ('405', tuple(sorted((res.header('Allow') or '').split(',')))), hooks
    if res.code == 404:
        return ('404',), hooks
    return ('odd', res.brief() + W.errors_text(env)[-300:]), hooks


def fresh_world(w, rng):
    f = World(w.rules, w.hook_rules)
    f.log = w.log
    steps = []
    for toks, rec in w.routes.items():
        for m, (tag, rule) in rec.methods.items():
            steps.append(('r', rule, m, tag))
    for toks, (tag, rule) in w.hooks.items():
        steps.append(('h', rule, None, tag))
    for toks, (tag, rule) in w.phooks.items():
        steps.append(('p', rule, None, tag))
    rng.shuffle(steps)
    for k, rule, m, tag in steps:
        if k == 'r':
            f.router.add(rule.text, m, w.handler(tag))
        elif k == 'h':
            f.app.on_route(rule.text, w.hook(tag))
        else:
            f.app.error(404, rule.text)(w.phook(tag))
    return f


def probe_all(ctx, w, paths, rng=None, fresh=False, methods=('GET',), light=False):
    def viol(key, msg):
        ctx.violation(key, '%s\nrules %r\nhook rules %r\nops %r\nsurviving routes %r hooks %r' % (
            msg, [r.text for r in w.rules], [r.text for r in w.hook_rules], w.ops,
            {rec.rule.text: sorted(rec.methods) for rec in w.routes.values()}, [r.text for _, r in w.hooks.values()]), case(w))

    f = None
    if fresh and not w.unsure and not w.unsure_p:
        try:
            f = fresh_world(w, rng)
        except Exception as e:
            # the survivors themselves cannot be registered together: spelled filters in another order
            ctx.obs['fresh_not_buildable'] += 1
            f = None
            if not any(spelled_differs(a, b) for a in occupied(w) for b in occupied(w)):
                viol('survivors-not-registrable', 'survivors cannot be registered in a fresh router: %r' % (e,))
    for path in paths:
        for m in methods:
            exp, rec = expect(w, path, m)
            got, hooks = observe(w.app, w.log, path, m)
            ctx.obs['probes'] += 1
            if got[0] == 'partial' and exp[0] == '404':
                pass       # which 404 hook takes the miss is compared with the fresh router below
            elif got[0] != exp[0] or got[0] == 'call' and (got[1] != exp[1] or repr(sorted(got[2].items())) != repr(
                    sorted(exp[2].items()))) or got[0] == '405' and got[1] != exp[1]:
                viol('answer-%s-instead-of-%s' % (got[0], exp[0]), '%s %r: expected %r, got %r' % (m, path, exp, got))
            elif got[0] == 'call':
                eh = expect_hooks(w, rec, path)
                if any(not c for _, _, c in eh):
                    # unspecified hooks may fire; the certain ones have to, in order
                    want = [(t, p) for t, p, c in eh if c]
                    have = [h for h in hooks if h in want]
                    if have != want:
                        viol('hooks', '%s %r: hooks %r, expected (among others) %r' % (m, path, hooks, want))
                else:
                    want = [(t, p) for t, p, c in eh]
                    if hooks != want:
                        viol('hooks', '%s %r: hooks fired %r, expected %r' % (m, path, hooks, want))
                if want:
                    ctx.obs['hooks_fired'] += 1
                if len(want) > 1:
                    ctx.obs['nested_hooks_fired'] += 1
            elif hooks:
                viol('hooks-on-miss', '%s %r: route hooks %r fired with %r' % (m, path, hooks, got))
            if f is not None:
                got2, hooks2 = observe(f.app, w.log, path, m)
                ctx.obs['fresh_compared'] += 1
                if repr((got, hooks)) != repr((got2, hooks2)):
                    viol('differs-from-fresh', '%s %r: edited router %r %r, fresh router %r %r' % (
                        m, path, got, hooks, got2, hooks2))
    # lookups by name, by rule, the routes table
    router = w.router
    for rule in w.rules:
        try:
            r = router[{rule.text}]
        except Exception as e:
            viol('lookup-by-rule', 'router[{%r}] raised %r' % (rule.text, e))
            continue
        rec = w.routes.get(rule.toks)
        if rec is None:
            if r is not None:
                viol('lookup-by-rule', 'router[{%r}] gives %r for a rule that is not registered' % (rule.text, r))
        elif not spelled_differs(rule, rec.rule):
            if r is None or sorted(r.methods) != sorted(rec.methods):
                viol('lookup-by-rule', 'router[{%r}] gives %r, registered methods %r' % (rule.text, r, sorted(rec.methods)))
        ctx.obs['rules_checked'] += 1
    for n in w.used_names:
        r = router[n]
        toks = w.names.get(n)
        ctx.obs['names_checked'] += 1
        if toks is None:
            if r is not None:
                viol('lookup-by-name', 'router[%r] gives %r, the name is gone' % (n, r))
        else:
            if r is None or r is not router[{w.routes[toks].rule.text}]:
                viol('lookup-by-name', 'router[%r] gives %r, expected the route %r' % (n, r, w.routes[toks].rule.text))
    live = [router[{rec.rule.text}] for rec in w.routes.values()]
    table = list(w.app.routes.values())
    if len(table) != len(live) or {id(x) for x in table} != {id(x) for x in live}:
        viol('routes-table', 'router.routes holds %r, expected %r' % (table, live))


# ---------------------------------------------------------------- universes
def mk(ast, text, spelled=None):
    return R.Rule(ast, text, spelled)


L = R.lit
Pn = R.par


def U_small():
    rules = [
        mk([L('a')], '/a'),
        mk([L('ab')], '/ab'),
        mk([L('a/'), Pn('x')], '/a/{x}'),
        mk([L('a/b')], '/a/b'),
        mk([L('a/'), Pn('x'), L('/c')], '/a/{x}/c'),
        mk([Pn('x', 'int')], '/{x:int}', [('int', None)]),
    ]
    hooks = [
        mk([L('a')], '/a'), mk([L('a/'), Pn('x')], '/a/<x>'), mk([], '/'), mk_slash('a/'), mk([Pn('x')], '/{x}'),
    ]
    paths = ['/', '/a', '/ab', '/a/b', '/a/x', '/a/b/c', '/a/x/c', '/5', '/a/', '/ac', '/a/x/d', '/b']
    prefixes = [('/a*', ['a']), ('/a/*', ['a', '/']), ('/*', []), ('/ab*', ['a', 'b'])]
    return rules, hooks, paths, prefixes


def mk_slash(text):
    """a hook rule that ends in '/': the slash counts"""
    r = R.Rule([L(text)], '/' + text)
    r.outer_slash = False
    r.ast = [L(text)]
    r.toks = tuple(text)
    r.parts = [L(text)]
    return r


def U_hooks():
    rules = [
        mk([L('foo/bar')], '/foo/bar'),
        mk([L('foo')], '/foo'),
        mk([L('foo/'), Pn('x', 're', '[a-z]+')], '/foo/{x:re:[a-z]+}', [('re', '[a-z]+')]),
        mk([], '/'),
        mk([L('fo*')], '/fo*'),
    ]
    hooks = [mk([L('f')], '/f'), mk([L('foo')], '/foo'), mk_slash('foo/'), mk([L('foo/bar')], '/foo/bar'),
             mk([L('foo/'), Pn('x', 're', '[a-z]+')], '/foo/{x:re:[a-z]+}', [('re', '[a-z]+')]),
             mk([L('foo/'), Pn('x', 'int')], '/foo/{x:int}', [('int', None)])]
    paths = ['/', '/foo', '/foo/bar', '/foo/baz', '/foo/1', '/fo', '/fo*', '/foo/ba', '/foo/bar/', '/f', '/foo/barz']
    prefixes = [('/foo/*', list('foo/')), ('/fo*', list('fo')), ('/foo/ba*', list('foo/ba')), ('/*', [])]
    return rules, hooks, paths, prefixes


def op_list(rules, hooks, prefixes):
    ops = []
    for i in range(len(rules)):
        ops.append(('add', i, ('GET',), 'n%d' % (i % 3), False))
        ops.append(('add', i, ('POST',), None, False))
        ops.append(('rm', i))
    ops.append(('add', 0, ('GET',), 'n1', True))
    for i in range(len(hooks)):
        ops.append(('hook', i))
        ops.append(('rm_hook', i))
    for n in range(2):
        ops.append(('rm_name', 'n%d' % n))
    ops.append(('rm_obj', len(rules) - 1))
    for t, toks in prefixes:
        ops.append(('rm_prefix', t, toks))
    for i in (0, 1, 7):
        ops.append(('bad', i))
    ops.append(('badhook', 0))
    return ops


def run_history(ctx, rules, hooks, ops, paths, each, rng=None, fresh=False, methods=('GET',)):
    w = World(rules, hooks)
    try:
        for k, op in enumerate(ops):
            apply(ctx, w, op)
            if each or k == len(ops) - 1:
                probe_all(ctx, w, paths, rng, fresh, methods)
    except Stop:
        pass
    return w


def shards(ctx):
    return [('exh', i) for i in range(8)] + [('rand', i) for i in range(ctx.scale(8, 24))]


def gen_universe(rng):
    """rules sharing prefixes, hooks on prefixes of them, probe paths."""
    lits = rng.choice([['a', 'ab', 'abc', 'b', '/', 'a/'], R.LITS, ['foo', 'fo', 'foobar', 'f', '/', 'x']])
    filters = rng.choice([(), ('int',), ('int', 're'), ('int', 'float', 're', 'path'), ('rex', 'int')])
    rules, tries = [], 0
    want = rng.randint(3, 9)
    while len(rules) < want and tries < 200:
        tries += 1
        if rules and rng.random() < .6:
            base = rng.choice(rules).full_ast
            cut = rng.randint(0, len(base))
            head = list(base[:cut])
            used = {e[1] for e in head if e[0] == 'par'}
            if head and head[-1][0] == 'lit' and rng.random() < .5:
                s = head[-1][1]
                head[-1] = L(s[:rng.randint(0, len(s))])
            tail = [e if e[0] == 'lit' or e[1] not in used else Pn('z%d' % i, e[2], e[3])
                    for i, e in enumerate(R.gen_ast(rng, lits, 3, filters))]
            ast = R.norm(head + ([L('/')] if rng.random() < .4 else []) + tail)
        else:
            ast = R.gen_ast(rng, lits, 4, filters)
        if any(a[0] == 'par' and a[2] == 'path' and b[0] == 'par' for a, b in zip(ast, ast[1:])):
            continue
        t, sp = R.spell(rng, ast)
        if t is None:
            continue
        r = R.Rule(ast, t, sp)
        if r.outer_slash:
            continue
        rules.append(r)
    hooks = []
    for r in rules:
        ast = r.full_ast
        for _ in range(2):
            cut = rng.randint(0, len(ast))
            h = list(ast[:cut])
            if h and h[-1][0] == 'lit' and rng.random() < .6:
                s = h[-1][1]
                h[-1] = L(s[:rng.randint(1, len(s))])
            # cutting the literal behind :path changes the mask of :path
            if any(a[0] == 'par' and a[2] == 'path' for a in h) and len(h) != len(ast):
                if rng.random() < .7:
                    continue
            h = R.norm(h)
            t, sp = R.spell(rng, h)
            if t is None or t.endswith('*'):
                continue
            hr = R.Rule(h, t, sp)
            if hr.outer_slash:
                if any(e[0] == 'par' for e in h) or h[0][1][0] == '/':
                    continue
                hr = mk_slash(t[1:])
            hooks.append(hr)
    hooks = hooks[:8] or [mk([], '/')]
    paths = []
    for _ in range(14):
        paths.append(R.gen_path(rng, rules))
    for r in rules:
        paths.append('/' + R.fill(rng, r))
    return rules, hooks, paths


def gen_ops(rng, rules, hooks, n, partial):
    ops = []
    names = ['n1', 'n2', 'n3']
    for _ in range(n):
        k = rng.random()
        if k < .42 or len(ops) < 2:
            ms = tuple(rng.sample(['GET', 'POST', 'get', 'PUT'], rng.choice([1, 1, 2])))
            ops.append(('add', rng.randrange(len(rules)), ms, rng.choice(names) if rng.random() < .4 else None, rng.random() < .25))
        elif k < .46:
            ops.append((rng.choice(['bad', 'badhook']), rng.randrange(len(BAD_RULES))))
        elif k < .58:
            ops.append((rng.choice(['rm', 'rm', 'rm_obj', 'rm_pat']), rng.randrange(len(rules))))
        elif k < .65:
            ops.append(('rm_name', rng.choice(names)))
        elif k < .70:
            r = rng.choice(rules)
            if r.text.endswith('*'):
                continue
            # a literal cut of the rule's own text in front of its first wildcard, or up to a wildcard
            m = next((i for i, t in enumerate(r.toks) if isinstance(t, tuple)), len(r.toks))
            if rng.random() < .7 or m == len(r.toks):
                c = rng.randint(0, m)
                ops.append(('rm_prefix', '/' + ''.join(r.toks[:c]) + '*', [t for t in r.toks[:c]]))
            else:
                f = r.toks[m][1][0]
                if f != 'path':
                    ops.append(('rm_prefix', '/' + ''.join(r.toks[:m]) + '{%s}*' % (
                        'v' if f is None else 'v:%s' % f if f not in ('re', 'rex') else 'v.%s(%s)' % (f, r.toks[m][1][1])), list(r.toks[:m + 1])))
        elif k < .9:
            ops.append(('phook' if partial and rng.random() < .4 else 'hook', rng.randrange(len(hooks))))
        else:
            ops.append(('rm_hook', rng.randrange(len(hooks))))
    return ops


X = '{x:rex((aaa)|(b))%s}'
REX_RULES = ['/foo/%s/bar/{y}' % (X % '[1]'), '/foo/%s/bar/{y:rex((p)|(q))[1]}z' % (X % '[2]'), '/foo/lit']
REX_HOOKS = ['/', '/foo/', '/foo/' + X % '', '/foo/' + X % '[1]' + '/', '/foo/' + X % '[1]' + '/bar', '/foo/' + X % '[2]' + '/',
             '/foo/' + X % '[2]' + '/bar/{y:rex((p)|(q))[1]}']
REX_EXPECT = {
    '/foo/aaa/bar/z': [(0, '/'), (1, '/foo/'), (2, '/foo/aaa'), (3, '/foo/aaa/'), (4, '/foo/aaa/bar')],
    '/foo/b/bar/pz': [(0, '/'), (1, '/foo/'), (2, '/foo/b'), (5, '/foo/b/'), (6, '/foo/b/bar/p')],
    '/foo/b/bar/qz': None, '/foo/b/bar/p': None, '/foo/aaa/bar/': None,
    '/foo/lit': [(0, '/'), (1, '/foo/')],
}


def rex_hooks(ctx, order, gone):
    app, log = W.fresh_app(), []
    todo = [('r', i) for i in range(len(REX_RULES))] + [('h', i) for i in range(len(REX_HOOKS))]
    for j in order:
        k, i = todo[j]
        if k == 'r':
            app.route(REX_RULES[i], callback=lambda **kw: 'x')
        else:
            app.on_route(REX_HOOKS[i], lambda p, _i=i: log.append((_i, p)))
    for i in gone:
        app.remove_route_hook(REX_HOOKS[i])
    for path, exp in REX_EXPECT.items():
        del log[:]
        res = W.call(app, W.environ('GET', path))
        ctx.obs['selector_hooks'] += 1
        want = [e for e in exp or [] if e[0] not in gone]
        if (res.code == 404) != (exp is None) or log != want:
            ctx.violation('selector-hooks', 'rules %r hooks %r without %r, path %r: status %s hooks %r, expected %r' % (
                REX_RULES, REX_HOOKS, gone, path, res.status, log, want), dict(order=list(order), gone=list(gone)))


def run_shard(ctx, shard):
    kind, idx = shard
    rng = ctx.rng
    if kind == 'rand':
        for _ in range(ctx.scale(2, 12)):
            crowd(ctx, rng)
        for _ in range(ctx.scale(30, 300)):
            order = list(range(len(REX_RULES) + len(REX_HOOKS)))
            rng.shuffle(order)
            gone = [i for i in range(len(REX_HOOKS)) if rng.random() < .2]
            rex_hooks(ctx, order, gone)
            ctx.seen(('rex', tuple(order), tuple(gone)), True, cls='selector-hooks')
    if kind == 'exh':
        for uni, qd, td in ((U_small, 3, 4), (U_hooks, 3, 4)):
            rules, hooks, paths, prefixes = uni()
            ops = op_list(rules, hooks, prefixes)
            depth = ctx.scale(qd, td)
            count = 0
            for d in range(1, depth + 1):
                for j, h in enumerate(itertools.product(ops, repeat=d)):
                    if j % 8 != idx:
                        continue
                    # histories that start with an edit of nothing are covered by their shorter tails
                    if h[0][0] in ('rm', 'rm_name', 'rm_hook', 'rm_obj', 'rm_prefix'):
                        continue
                    sub = paths if d < 3 or not ctx.quick else paths[(j // 8) % 3::3]
                    w = run_history(ctx, rules, hooks, h, sub, False)
                    count += 1
                    ctx.seen((uni.__name__, h), w.effective > 1, cls='exhaustive-%d' % d)
            ctx.obs['exhaustive_histories'] += count
    else:
        for _ in range(ctx.scale(260, 5000)):
            rules, hooks, paths = gen_universe(rng)
            partial = rng.random() < .3
            ops = gen_ops(rng, rules, hooks, rng.randint(3, 22), partial)
            w = run_history(ctx, rules, hooks, ops, paths, True, rng, True, ('GET', 'POST') if rng.random() < .3 else ('GET',))
            ctx.seen(([r.text for r in rules], [r.text for r in hooks], ops), w.effective > 1, cls='random')


def crowd(ctx, rng):
    """The route table of a large application: tens to hundreds of rules, names and hooks, edited here and there."""
    k = int(10 ** rng.uniform(1.3, 2.2))
    rules, hooks, paths = [], [], []
    for i in range(k):
        shape = rng.randrange(6)
        base = rng.choice(['r%d', 'api/v%d', 'api/x/%d', 'zz%d', '%d'])  % i
        ast = [[L(base)], [L(base + '/'), Pn('x')], [L(base + '/'), Pn('x', 'int')], [L(base + '/'), Pn('x'), L('/edit')], [L(base + '/a')], [L('s/'), Pn('x'), L('/' + base)]][shape]
        t, sp = R.spell(rng, ast)
        r = R.Rule(ast, t, sp)
        rules.append(r)
        paths.append('/' + R.fill(rng, r))
        if rng.random() < .4:
            h = L((base + '/')[:rng.randrange(1, len(base) + 1)].rstrip('/')) if shape != 5 else L('s')
            hooks.append(mk([h], '/' + h[1]))
    hooks = hooks or [mk([L('r')], '/r')]
    ops = [('add', i, ('GET',), 'n%d' % (i if rng.random() < .9 else rng.randrange(k)), False) for i in rng.sample(range(k), k)]
    ops += [('hook', i) for i in range(len(hooks))]
    if rng.random() < .5:
        rng.shuffle(ops)
    for _ in range(rng.choice([3, k // 4, k])):
        i = rng.randrange(k)
        r = rng.random()
        ops.append(('rm', i) if r < .25 else ('rm_obj', i) if r < .35 else ('rm_pat', i) if r < .45 else ('rm_name', 'n%d' % i) if r < .55
                   else ('rm_hook', rng.randrange(len(hooks))) if r < .65 else ('hook', rng.randrange(len(hooks))) if r < .7
                   else ('rm_prefix', '/api/*', list('api/')) if r < .71 else ('add', i, (rng.choice(['GET', 'POST']),), rng.choice([None, 'n%d' % rng.randrange(k)]), rng.random() < .3))
    w = World(rules, hooks)
    try:
        for op in ops:
            apply(ctx, w, op)
        probe_all(ctx, w, rng.sample(paths, min(len(paths), 60)) + [p + 'x' for p in rng.sample(paths, 5)], rng, True)
    except Stop:
        pass
    ctx.obs['crowds'] += 1
    ctx.seen(([r.text for r in rules], ops), True, cls='crowd')


def run_case(ctx, c):
    if 'order' in c:
        return rex_hooks(ctx, c['order'], c['gone'])
    def build(lst):
        out = []
        for a, t, sp in lst:
            a = [tuple(e) for e in a]
            if t.endswith('/') and len(t) > 1:
                out.append(mk_slash(t[1:]))
            else:
                out.append(R.Rule(a, t, [tuple(x) if x else None for x in sp] if sp else None))
        return out
    rules, hooks = build(c['rules']), build(c['hook_rules'])
    import random
    rng = random.Random(1)
    ops = [tuple(o) for o in c['ops']]
    paths = [R.gen_path(rng, rules) for _ in range(300)] + ['/' + R.fill(rng, r) for r in rules for _ in range(20)]
    for u in (U_small, U_hooks):
        paths += u()[2]
    w = World(rules, hooks)
    try:
        for op in ops:
            apply(ctx, w, op)
            probe_all(ctx, w, paths, rng, True, ('GET', 'POST'))
    except Stop:
        pass
