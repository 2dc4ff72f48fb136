"""C19: a URL built from matched parameters leads back to the same match."""
import random
import re

from vlib import routes as R
from vlib import wsgi as W
from checks import c01

PID = 'C19'
LEVEL = 'exploration'
RULE = ('every rule of a small grammar x all short paths, and random rules in every spelling x random matching paths (Unicode, CR, '
        'huge and tiny numbers): parameters a match produces are fed to Route.url, the URL is resolved again by the router and by the '
        'reference matcher; a case is (rule, matched path); non-trivial when the rule has a wildcard and the path matched')
REQUIRED = ('round_trips', 'anonymous_values', 'float_values', 'int_values', 'path_values', 're_values', 'empty_values',
            'canonical_differs', 'selector_values', 'huge_numbers', 'served_over_wsgi', 'long_rules')
ASSUMPTIONS = [
    'parameters are taken from a match the router and the reference matcher agree on (disagreements are C01)',
    'a wildcard directly after a :path wildcard is not generated',
]


def same(a, b):
    return len(a) == len(b) and all(type(x) is type(y) and x == y for x, y in zip(a, b))


def case(rule, path):
    return dict(ast=[list(e) for e in rule.full_ast], text=rule.text, path=path)


def fmt(filt, v):
    """reference formatting of one value"""
    if filt == 'int':
        return str(v)
    if filt == 'float':
        m, _, e = repr(v).partition('e')
        if not e:
            return m
        sign = '-' if m[0] == '-' else ''
        m = m.lstrip('-')
        a, _, b = m.partition('.')
        e = int(e)
        if e >= 0:
            b = b.ljust(e, '0')
            a, b = a + b[:e], b[e:]
        else:
            a = a.rjust(1 - e, '0')
            a, b = a[:e], a[e:] + b
        return sign + a + '.' + (b or '0')
    return v


class Bed:
    def __init__(self, rule, name=None):
        self.rule = rule
        self.app = W.fresh_app()
        self.got = []
        self.route = self.app.router.add(rule.text, 'GET', lambda **kw: self.got.append(kw) or 'x', name)
        self.name = name
        if name:
            self.route = self.app.router[name]


def resolve(bed, path):
    ep, err = bed.app.router.resolve(path, ['GET'])
    return None if ep is None else ep[1]


def round_trip(ctx, bed, path, wsgi=False):
    rule = bed.rule
    vals = rule.match(path.strip('/'))
    try:
        params = resolve(bed, path)
    except Exception as e:
        ctx.obs['resolve_raises'] += 1
        return
    if (vals is None) != (params is None) or vals is not None and repr(sorted(rule.named(vals).items())) != repr(sorted(params.items())):
        ctx.obs['left_to_C01'] += 1
        return
    if vals is None:
        ctx.obs['no_match'] += 1
        ctx.seen((rule.text, path), False)
        return
    ctx.seen((rule.text, path), bool(vals), cls='-'.join(sorted({str(p[2][0]) for p in rule.parts if p[0] == 'par'})) or 'static')
    anon = [v for n, v in zip(rule.names, vals) if n is None]
    filts = [p[2][0] for p in rule.parts if p[0] == 'par']
    ctx.obs['round_trips'] += 1
    ctx.obs['anonymous_values'] += len(anon)
    for f, v in zip(filts, vals):
        ctx.obs['%s_values' % f] += 1
        if v == '':
            ctx.obs['empty_values'] += 1
        if f in ('int', 'float') and abs(v) > 1e15:
            ctx.obs['huge_numbers'] += 1
    it = iter([fmt(f, v) for f, v in zip(filts, vals)])
    plain = ''.join(p[1] if p[0] == 'lit' else next(it) for p in rule.parts)
    if plain != path.strip('/'):
        ctx.obs['canonical_differs'] += 1

    def viol(key, msg):
        ctx.violation(key, 'rule %r, path %r, values %r: %s' % (rule.text, path, vals, msg), case(rule, path))

    # a number's spelling is lost with the match; when the canonical text itself is read differently, nothing can be built
    plain_vals = rule.match(plain.strip('/'))
    lossy = 'selector-loses-text' if 'rex' in filts else 'canonical-number-moves-earlier-filter'
    inherent = plain != path.strip('/') and (plain_vals is None or not same(vals, plain_vals))
    try:
        url = bed.route.url(*anon, **params)
        again = bed.route.url(*anon, **params)
    except Exception as e:
        return viol(lossy if inherent else 'url-raises', 'url() raised %r' % (e,))
    if type(url) is not str:
        return viol('url-not-text', 'url() gave %r' % (url,))
    if url != again:
        return viol('url-not-stable', 'url() gave %r, then %r' % (url, again))
    try:
        back = resolve(bed, url)
        back_vals = rule.match(url.strip('/'))
    except Exception as e:
        return viol('url-breaks-resolve', 'url %r: resolve raised %r' % (url, e))
    if back is None or back_vals is None or not same(vals, back_vals) or repr(sorted(back.items())) != repr(sorted(params.items())):
        return viol(lossy if inherent and url == plain else 'no-round-trip',
                    'url %r resolves to %r (reference %r), expected %r' % (url, back, back_vals, params))
    # literals verbatim and in order, around the values
    pos = 0
    for p in rule.parts:
        if p[0] == 'lit':
            j = url.lstrip('/').find(p[1], pos)
            if j < 0:
                return viol('literal-missing', 'url %r lacks the literal %r' % (url, p[1]))
            pos = j + len(p[1])
    if wsgi:
        try:
            url.encode('utf8')
        except UnicodeError:
            return
        del bed.got[:]
        res = W.call(bed.app, W.environ('GET', '/' + url))
        ctx.obs['served_over_wsgi'] += 1
        if res.code != 200 or len(bed.got) != 1 or repr(sorted(bed.got[0].items())) != repr(sorted(params.items())):
            return viol('no-round-trip-over-wsgi', 'url %r served as %s with %r' % (url, res.status, bed.got))


# ------------------------------------------------------------- selector (rex) wildcards
REX = [
    # rule, paths that match
    ('/foo/{some:rex((foo)|(bar)|(baz))[2]}baz/foo', ['/foo/foobaz/foo', '/foo/barbaz/foo', '/foo/bazbaz/foo']),
    ('/x/{v.rex([a-c]+)}-{w}', ['/x/abc-é', '/x/a-b-c']),
    ('/{a:rex((aa)|(b))[1]}/{b:int}', ['/aa/007', '/b/5']),
    ('/p/{k:rex(x(\\d+))}', ['/p/x12', '/p/x0']),
]


def rex_probe(ctx, text, paths):
    from ombott.router.radirouter import RadiRouter
    router = RadiRouter()
    route = router.add(text, 'GET', lambda **kw: None)
    for path in paths:
        ep, err = router.resolve(path, ['GET'])
        if not ep:
            ctx.obs['selector_no_match'] += 1
            continue
        ctx.obs['selector_values'] += 1
        params = ep[1]
        ctx.seen((text, path), True, cls='rex')
        try:
            url = route.url(**params)
        except Exception as e:
            url = e
        ep2 = None if isinstance(url, Exception) else router.resolve(url, ['GET'])[0]
        if not ep2 or ep2[1] != params:
            # a selected group that is not the whole match loses the text around it
            key = 'selector-loses-text' if re.search(r'rex\(x\(', text) else 'selector-no-round-trip'
            ctx.violation(key, 'rule %r path %r params %r: url %r leads to %r' % (text, path, params, url, ep2 and ep2[1]),
                          dict(rex=text, paths=[path]))


FLOATS = ['0.00001', '-0.00001', '1e5', '123456789012345678', '0.1', '00.10', '-0', '-0.0', '5e-324', '9' * 308, '0.' + '0' * 320 + '1',
          '0.' + '0' * 300 + '12345', '99999999999999999999.5', '1.7976931348623157', '3.14', '1.0000000000000002', '100000000000000000000000']
INTS = ['0', '-0', '007', '-007', '9' * 100, '-' + '8' * 30, '12', '1' * 4300, '٣', '0' * 50 + '1']


def numeric_rules(rng):
    L, P = R.lit, R.par
    yield [P('x', 'float')], FLOATS
    yield [L('f/'), P('x', 'float'), L('/end')], FLOATS
    yield [L('f'), P('x', 'float'), L('.'), P('y', 'int')], FLOATS
    yield [L('f'), P('x', 'float'), L('x'), P('y', 'float')], FLOATS
    yield [P('x', 'int')], INTS
    yield [L('n-'), P('x', 'int'), L('-'), P('y', 'int')], INTS
    yield [P(None, 'int'), L('/'), P('b', 'float')], INTS + FLOATS
    yield [P('x', 'path'), L('/'), P('f', 'float')], FLOATS


def shards(ctx):
    return [('rand', i) for i in range(ctx.scale(8, 24))] + [('small', i) for i in range(8)] + [('num', 0)]


def run_shard(ctx, shard):
    kind, idx = shard
    rng = ctx.rng
    if kind == 'small':
        uni = c01.small_rules()
        paths = list(c01.short_paths(ctx.scale(4, 6)))
        for k, ast in enumerate(uni):
            if k % 8 != idx:
                continue
            text, sp = R.spell(rng, ast, rng.choice(['<>', '{}']))
            if text is None:
                continue
            bed = Bed(R.Rule(ast, text, sp))
            for p in paths:
                round_trip(ctx, bed, p)
    elif kind == 'num':
        for ast, vals in numeric_rules(rng):
            text, sp = R.spell(rng, ast, '<>')
            bed = Bed(R.Rule(ast, text, sp), 'nm')
            for _ in range(ctx.scale(400, 4000)):
                p = ''.join(e[1] if e[0] == 'lit' else rng.choice(vals if e[2] in ('int', 'float') else ['a/b', '0', 'x/1.5'])
                            for e in ast)
                round_trip(ctx, bed, '/' + p, rng.random() < .2)
        for text, paths in REX:
            rex_probe(ctx, text, paths)
        # witness of the known ambiguity
        ast = [R.par('p', 'path'), R.lit('0'), R.par('f', 'float')]
        bed = Bed(R.Rule(ast, '/{p:path}0{f:float}', [('path', None), ('float', None)]))
        round_trip(ctx, bed, '/a0105')
    else:
        for _ in range(ctx.scale(2500, 30000)):
            filters = rng.choice([('int', 'float', 're', 'path'), ('float', 'path'), ('re',), ('int',), (), ('rex',), ('rex', 'float', 're')])
            if rng.random() < .03:
                ast = R.long_ast(rng)
                text, sp = R.spell(rng, ast)
                if text is None:
                    continue
                rule = R.Rule(ast, text, sp)
                ctx.obs['long_rules'] += 1
            else:
                rule = R.gen_rule(rng, filters=filters, anon=rng.choice([0.1, 0.5]), maxparts=rng.choice([3, 5, 7]))
            if rule.names and rng.random() < .1:
                rule = with_self(rng, rule) or rule
            try:
                bed = Bed(rule, rng.choice([None, 'n']))
            except Exception:
                ctx.obs['rule_refused'] += 1
                continue
            for _ in range(25):
                k = rng.random()
                s = R.fill(rng, rule) if k < .8 else R.mutate(rng, R.fill(rng, rule))
                if k < .2:      # extreme numbers
                    s = ''.join(p[1] if p[0] == 'lit' else rng.choice({'int': INTS, 'float': FLOATS}.get(p[2][0]) or
                                                                       R.VALUES[p[2][0]]) if rng.random() < .95 or p[0] == 'lit' else R.word_value(rng, p[2][0]) for p in rule.parts)
                round_trip(ctx, bed, '/' + s, rng.random() < .1)


def with_self(rng, rule):
    """the same rule with a wildcard called `self`"""
    ast = list(rule.full_ast)
    idx = [i for i, e in enumerate(ast) if e[0] == 'par' and e[1]]
    if not idx:
        return None
    i = rng.choice(idx)
    ast[i] = ('par', 'self') + tuple(ast[i][2:])
    text, sp = R.spell(rng, ast)
    return R.Rule(ast, text, sp) if text else None


def run_case(ctx, c):
    if 'rex' in c:
        return rex_probe(ctx, c['rex'], c['paths'])
    rule = R.Rule([tuple(e) for e in c['ast']], c['text'])
    for name in (None, 'n'):
        round_trip(ctx, Bed(rule, name), c['path'], True)
