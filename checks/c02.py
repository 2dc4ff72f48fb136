"""C02: verb, GET-for-HEAD, ANY; 405 with exact Allow; 404/405 split."""
import re

from vlib import autodict as AD
from vlib import routes as R
from vlib import wsgi as W

W.NOISE = True
W.AMBIENT = True
PID = 'C02'
LEVEL = 'exploration'
RULE = ('random edit histories of per-route method tables (any letter case, overwrite, rejected duplicates, per-method and whole-'
        'route removal) probed with every request method on matching and near-miss paths through WSGI and resolve(); a case is '
        '(table of all routes, method, path); non-trivial when at least one route is registered')
REQUIRED = ('verb', 'head_to_get', 'head_to_any', 'any', '405', '404', 'lower_case_request', 'after_removal', 'after_overwrite',
            'duplicate_rejected', 'with_hook', 'with_hook404', '405_no_methods', 'crowds')
ASSUMPTIONS = ['a route whose last method was removed is still a registered route (405 with an empty Allow) until it is removed itself']

VERBS = ['GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'PATCH', 'OPTIONS', 'ANY', 'PURGE', 'M-SEARCH', 'GETX', 'BASELINE-CONTROL-OF-EVERYTHING', 'BASELINE-CONTROL-OF-EVERYTHING-2']


def word_method(rng):
    m = re.findall('[A-Za-z]+', AD.word(rng))
    if m and rng.random() < .3:
        m = ['-'.join(rng.choice(m) for _ in range(int(10 ** rng.uniform(.3, 2))))]
    return rng.choice(m).upper() if m else 'X'


def recase(rng, s):
    if rng.random() < .03:
        s = word_method(rng)
    return rng.choice([s, s, s.lower(), s.title(), ''.join(rng.choice([c, c.lower()]) for c in s)])


class World:
    def __init__(self, rules):
        self.app = W.fresh_app()
        self.rules = rules
        self.table = {}      # toks -> {METHOD: tag}
        self.obj = {}        # toks -> Route as returned
        self.rule_of = {}
        self.log = []
        self.n = 0
        self.ops = []
        self.flags = set()
        self.hooked = 0

    def handler(self):
        self.n += 1
        tag = self.n

        def h(**kw):
            self.log.append(tag)
            return 'h%d' % tag
        return tag, h


def do_op(ctx, w, op):
    """op: (kind, rule index, methods, extra). Applies to router and model; returns nothing."""
    kind, ri, methods, extra = op
    w.ops.append(op)
    rule = w.rules[ri]
    app = w.app
    tab = w.table.get(rule.toks)
    ups = [m.upper() for m in ([methods] if isinstance(methods, str) else methods or [])]
    bad = None
    if kind in ('route', 'add_route', 'shortcut', 'overwrite', 'shortcut_overwrite'):
        tag, h = w.handler()
        over = 'overwrite' in kind
        dup = not over and tab is not None and set(ups) & set(tab)
        try:
            if kind.startswith('shortcut'):
                getattr(app, methods.lower())(rule.text, callback=h, overwrite=over)
            elif kind == 'add_route':
                r = app.add_route(rule.text, methods, h)
                w.obj[rule.toks] = r
            elif over:
                app.route(rule.text, methods, h, overwrite=True)
            elif extra:
                app.route(rule.text, methods)(h)
            else:
                app.route(rule.text, method=methods, callback=h)
        except Exception as e:
            if not dup:
                bad = 'registration refused: %r' % (e,)
            else:
                ctx.obs['duplicate_rejected'] += 1
        else:
            if dup:
                bad = 'duplicate registration accepted'
            tab = w.table.setdefault(rule.toks, {})
            w.rule_of[rule.toks] = rule
            for m in ups:
                tab[m] = tag
            if over:
                w.flags.add('after_overwrite')
    elif kind in ('remove_method', 'meth_remove', 'set_method', 'add_method'):
        if tab is None:
            return
        route = app.router[{rule.text}]
        if route is not None and len(w.ops) % 2:
            route = app.router[dict(rule=rule.text)]
        if route is None:
            bad = 'router[{rule}] is None for a registered rule'
        elif kind == 'remove_method':
            route.remove_method(methods)
            for m in ups:
                tab.pop(m, None)
            w.flags.add('after_removal')
        elif kind == 'meth_remove':
            m = ups[0]
            if m in tab:
                try:
                    route[m].remove()
                except Exception as e:
                    bad = 'route[%r].remove(): %r' % (m, e)
                tab.pop(m)
                w.flags.add('after_removal')
        else:
            tag, h = w.handler()
            dup = kind == 'add_method' and set(ups) & set(tab)
            try:
                getattr(route, kind)(methods, h)
            except Exception as e:
                if not dup:
                    bad = '%s refused: %r' % (kind, e)
                else:
                    ctx.obs['duplicate_rejected'] += 1
            else:
                if dup:
                    bad = 'duplicate add_method accepted'
                for m in ups:
                    tab[m] = tag
    elif kind == 'remove_route':
        if tab is None:
            return
        app.remove_route(rule.text)
        w.table.pop(rule.toks)
        w.flags.add('after_removal')
    elif kind in ('hook', 'hook404'):
        from ombott import HTTPError
        # neither a route hook nor a 404 handler of a prefix has a say in verbs
        def hk(*a):
            w.hooked += 1
            return HTTPError(404, 'by the prefix handler') if kind == 'hook404' else None
        t = rule.text if not extra or set(rule.text) & set('<{:') else rule.text[:rule.text.rfind('/')] or '/'
        try:
            if kind == 'hook404':
                app.error(404, t)(hk)
            else:
                app.on_route(t, hk)
        except Exception:
            ctx.obs['hook_refused'] += 1
        else:
            w.flags.add('with_' + kind)
    if bad:
        ctx.violation('edit-' + kind, '%s\nops %r' % (bad, w.ops), case(w, None, None, None))


def case(w, path, method, via):
    return dict(rules=[(list(map(list, r.full_ast)), r.text) for r in w.rules], ops=list(w.ops), path=path, method=method,
                via=via)


def expect(w, path, method):
    live = [w.rule_of[t] for t in w.table]
    best = R.select(live, path)
    if not best:
        return '404', None
    tab = w.table[best[0][0].toks]
    m = method.upper()
    order = [m] + (['GET'] if m == 'HEAD' else []) + ['ANY']
    for k, x in enumerate(order):
        if x in tab:
            return 'call', (tab[x], 'verb' if k == 0 else 'any' if m != 'HEAD' else 'head_to_get' if x == 'GET'
                            else 'head_to_any')
    return '405', set(tab)


def probe(ctx, w, path, method, via):
    kind, val = expect(w, path, method)
    del w.log[:]
    allow = None
    if via == 'wsgi':
        env = W.environ(method, path)
        res = W.call(w.app, env)
        if res.escaped is not None or res.code not in (200, 404, 405):
            got = ('odd', res.brief())
        elif res.code == 200:
            got = ('call', w.log[0] if len(w.log) == 1 else w.log[:])
        else:
            got = (str(res.code), None)
            if res.code == 405:
                al = res.header_all('Allow')
                allow = al[0] if len(al) == 1 else repr(al)
            if w.log:
                got = ('odd', 'handler called and %s' % res.status)
    else:
        m = method.upper()
        try:
            ep, err = w.app.router.resolve(path, [m] + (['GET'] if m == 'HEAD' else []) + ['ANY'])
        except Exception as e:
            got = ('odd', repr(e))
        else:
            if ep:
                ep[0](**ep[1])
                got = ('call', w.log[0])
            else:
                got = (str(err[0]), None)
                if err[0] == 405:
                    allow = err[2]
    key = None
    if kind == 'call':
        ctx.obs[val[1]] += 1
        if got != ('call', val[0]):
            key = 'wrong-handler-%s' % val[1]
    elif kind == '404':
        ctx.obs['404'] += 1
        if got[0] != '404':
            key = 'expected-404-got-%s' % got[0]
    else:
        ctx.obs['405'] += 1
        if not val:
            ctx.obs['405_no_methods'] += 1
        if got[0] != '405':
            key = 'expected-405-got-%s' % got[0]
    if got[0] == '405' and kind == '405' and not key:
        names = [x.strip() for x in (allow or '').split(',')] if allow else []
        if sorted(names) != sorted(val):
            key = 'allow-not-exact'
    if method != method.upper():
        ctx.obs['lower_case_request'] += 1
    for f in w.flags:
        ctx.obs[f] += 1
    ctx.seen((sorted((repr(k), sorted(v)) for k, v in w.table.items()), method, path), bool(w.table), cls=kind)
    if key:
        ctx.violation(key, 'tables %r\nops %r\n%s %r via %s: expected %s %r, got %r Allow=%r' % (
            {w.rule_of[t].text: v for t, v in w.table.items()}, w.ops, method, path, via, kind, val, got, allow),
            case(w, path, method, via))


def gen_rules(rng):
    pools = [
        ['a', 'ab', 'b', 'x', 'foo'],
        R.LITS,
    ]
    n = rng.randint(1, 5)
    out = []
    tries = 0
    while len(out) < n and tries < 50:
        tries += 1
        r = R.gen_rule(rng, lits=rng.choice(pools), maxparts=3, filters=rng.choice([(), ('int',), ('int', 're', 'path'), ('rex',)]))
        if r.text == '/' and rng.random() < .7:
            continue
        if r.outer_slash or '*' in r.text or any(R.conflict(r, o) or r.toks == o.toks for o in out):
            continue
        # one spelling per filter position
        sp = [x for x in (r.spelled or []) if x]
        if any(x[0] in ('int', 'float') and x[1] == '' for x in sp):
            continue
        out.append(r)
    return out


def gen_op(rng, w, nops):
    ri = rng.randrange(len(w.rules))
    k = rng.random()
    pool = rng.choice([VERBS[:3] + ['ANY'], VERBS, ['GET', 'HEAD', 'ANY'], ['POST', 'ANY', 'PUT']])
    if k < 0.55:
        kind = rng.choice(['route', 'route', 'add_route', 'overwrite', 'shortcut', 'shortcut_overwrite'])
        if kind.startswith('shortcut'):
            m = rng.choice(['GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'PATCH', 'OPTIONS'])
        else:
            n = rng.choice([1, 1, 2, 3])
            m = [recase(rng, x) for x in rng.sample(pool, min(n, len(pool)))]
            if n == 1 and rng.random() < .6:
                m = m[0]
            elif rng.random() < .3:
                m = tuple(m)
        return (kind, ri, m, rng.random() < .5)
    if k < 0.8:
        kind = rng.choice(['remove_method', 'remove_method', 'meth_remove', 'set_method', 'add_method'])
        if kind == 'meth_remove':
            return (kind, ri, rng.choice(pool), None)
        n = rng.choice([1, 1, 2])
        m = [recase(rng, x) for x in rng.sample(pool, n)]
        return (kind, ri, m[0] if n == 1 and rng.random() < .6 else m, None)
    if k < 0.88:
        return ('remove_route', ri, None, None)
    if k < 0.93:
        return (rng.choice(['hook', 'hook404', 'hook404']), ri, None, rng.random() < .4)
    return ('route', ri, recase(rng, rng.choice(pool)), True)


def shards(ctx):
    return list(range(ctx.scale(8, 32)))


def run_shard(ctx, shard):
    rng = ctx.rng
    for _ in range(ctx.scale(4, 20)):
        crowd(ctx, rng)
    for _ in range(ctx.scale(520, 6000)):
        rules = gen_rules(rng)
        w = World(rules)
        for k in range(rng.randint(1, 14)):
            do_op(ctx, w, gen_op(rng, w, k))
            for _ in range(3):
                path = R.gen_path(rng, rules)
                probe(ctx, w, path, recase(rng, rng.choice(VERBS[:8] if rng.random() < .8 else VERBS)),
                      rng.choice(['wsgi', 'resolve']))
        paths = [R.gen_path(rng, [r]) for r in rules] + [R.gen_path(rng, rules)]
        for path in paths:
            for v in VERBS:
                probe(ctx, w, path, recase(rng, v), 'wsgi')


def crowd(ctx, rng):
    """One rule with many methods, or many rules; some of both removed again."""
    k = int(10 ** rng.uniform(1.2, 2.4))
    verbs = ['V%d' % i for i in range(k)] + ['ANY', 'GET', 'HEAD', 'W' + 'X' * k, 'W' + 'X' * k + 'Y']
    if rng.random() < .5:
        rules = gen_rules(rng)[:2]
    else:
        rules = [R.Rule([('lit', '/r%d' % i)], '/r%d' % i) for i in range(k)]
    if not rules:
        return
    w = World(rules)
    ctx.obs['crowds'] += 1
    ris = list(range(len(rules)))
    if len(ris) > 2:
        for ri in ris:
            do_op(ctx, w, ('route', ri, rng.sample(verbs, rng.randrange(1, 4)), rng.random() < .5))
    hot = rng.sample(ris, min(2, len(ris)))
    for ri in hot:
        for m in verbs:
            do_op(ctx, w, (rng.choice(['overwrite', 'overwrite', 'set_method']) if ri in hot[:1] else 'overwrite', ri, recase(rng, m), True))
    for _ in range(rng.randrange(k)):
        do_op(ctx, w, (rng.choice(['remove_method', 'meth_remove', 'overwrite', 'remove_route'] if len(ris) > 2 else ['remove_method', 'meth_remove', 'set_method']), rng.choice(ris + hot * k), rng.choice(verbs), True))
    for _ in range(60):
        ri = rng.choice(ris + hot * k)
        probe(ctx, w, R.gen_path(rng, [rules[ri]]), recase(rng, rng.choice(verbs + ['NONE', 'POST'])), rng.choice(['wsgi', 'resolve']))


def run_case(ctx, c):
    rules = [R.Rule([tuple(e) for e in a], t) for a, t in c['rules']]
    w = World(rules)
    for op in c['ops']:
        do_op(ctx, w, tuple(op))
    if c['path'] is not None:
        probe(ctx, w, c['path'], c['method'], c['via'])
