"""C18: query strings and urlencoded forms decode to exactly what was sent; parsing any string terminates."""
import itertools
import re
from urllib.parse import quote, quote_plus, urlencode

from vlib import autodict as AD
from vlib import core
from vlib import wsgi as W

W.NOISE = True
W.AMBIENT = True
PID = 'C18'
LEVEL = 'exploration'
RULE = ('a case is (raw query string or body, channel) with the pair list it encodes, or a raw string for totality; all strings up to the bound '
        'over a hostile alphabet are enumerated, pair lists are random Unicode text in random spellings; non-trivial when a pair list with at least one pair '
        'is compared, or the raw string is not empty')
REQUIRED = ('compared_query', 'compared_forms', 'compared_params', 'compared_exhaustive', 'total_strings', 'total_bodies', 'lists_seen', 'blank_values',
            'long_forms', 'both_channels', 'repeated_three')
ASSUMPTIONS = ['URL-encoding: percent-escapes of UTF-8 bytes in either letter case, + or %20 for a space, any unreserved or sub-delimiter character may stay as it is, '
               'the first = of a pair ends the key', '"terminates" is judged by 20 s of CPU time', 'params is judged for one channel, and for two with disjoint keys']

ALPHA = 'ab=&+%41'
HEX = re.compile(r'%([0-9A-Fa-f]{2})')


def decode(s):
    """Independent decoder; None when `s` is not a valid encoding."""
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == '+':
            out += b' '
        elif c == '%':
            if not HEX.match(s, i):
                return None
            out.append(int(s[i + 1:i + 3], 16))
            i += 2
        elif ord(c) < 128:
            out.append(ord(c))
        else:
            return None
        i += 1
    try:
        return out.decode('utf8')
    except UnicodeDecodeError:
        return None


def reference(qs):
    """The pair list `qs` encodes, or None when it is not the encoding of one."""
    if not qs:
        return []
    out = []
    for piece in qs.split('&'):
        k, eq, v = piece.partition('=')
        if not eq or not k:
            return None
        k, v = decode(k), decode(v)
        if k is None or v is None:
            return None
        out.append((k, v))
    return out


def grouped(pairs):
    d = {}
    for k, v in pairs:
        d.setdefault(k, []).append(v)
    return {k: v if len(v) > 1 else v[0] for k, v in d.items()}


def plain(d):
    """Content of a FormsDict; a str subclass or tuple would differ."""
    return {k: list(v) if type(v) is list else v for k, v in dict(d).items()}


def well_typed(d):
    for k, v in d.items():
        if type(k) is not str:
            return False
        if not (type(v) is str or type(v) is list and all(type(x) is str for x in v)):
            return False
    return True


def request(**kw):
    import ombott
    return ombott.request_pkg.Request(kw.pop('env'), **kw)


def run_query(ctx, qs, via='request'):
    """-> parsed dict, through the request object or a whole WSGI exchange."""
    env = W.environ('GET', '/q', qs=qs)
    if via == 'request':
        return request(env=env).query
    app = W.fresh_app()
    got = []
    app.get('/q', callback=lambda: got.append((app.request.query, app.request.params, app.request.GET)) or 'ok')
    res = W.call(app, env)
    if res.code != 200 or not got:
        raise AssertionError('status %s: %s' % (res.brief(), W.errors_text(env)[-500:]))
    if not (plain(got[0][0]) == plain(got[0][1]) == plain(got[0][2])):
        raise AssertionError('query %r, params %r and GET %r differ' % got[0])
    return got[0][0]


def run_case(ctx, case):
    kind = case[0]
    try:
        with core.watchdog(20):
            if kind == 'raw':
                _raw(ctx, case)
            elif kind == 'rawbody':
                _rawbody(ctx, case)
            else:
                _pairs(ctx, case)
    except core.Hang:
        ctx.violation('hang/' + kind, 'no result after 20 s of CPU time for %.300r' % (case,), case)


def _raw(ctx, case):
    _, qs, via = case
    exp = reference(qs)
    try:
        got = run_query(ctx, qs, via)
    except Exception as e:
        ctx.violation('raises/query', 'parsing %.300r: %r' % (qs, e), case)
        return
    ctx.seen(case, bool(qs), 'raw')
    ctx.obs['total_strings'] += 1
    if not well_typed(got):
        ctx.violation('types', 'parsing %.300r gave %.300r' % (qs, got), case)
    elif exp is not None:
        ctx.obs['compared_exhaustive'] += 1
        exp = grouped(exp)
        if plain(got) != exp:
            ctx.violation('differs/query', '%.300r gave %.300r, expected %.300r' % (qs, plain(got), exp), case)


def _rawbody(ctx, case):
    _, body, ctype, chunked = case
    app = W.fresh_app()
    got = []
    app.post('/q', callback=lambda: got.append((app.request.forms, app.request.params)) or 'ok')
    stream = W.Input(body if not chunked else b'%x\r\n%b\r\n0\r\n\r\n' % (len(body), body) if body else b'0\r\n\r\n')
    env = W.environ('POST', '/q', stream=stream, cl=len(body), ctype=ctype, chunked=chunked)
    res = W.call(app, env)
    ctx.seen(case, bool(body), 'rawbody')
    ctx.obs['total_bodies'] += 1
    if res.code != 200 or not got:
        ctx.violation('raises/forms', 'body %.300r: %s %s' % (body, res.brief(), W.errors_text(env)[-500:]), case)
    elif not well_typed(got[0][0]) or not well_typed(got[0][1]):
        ctx.violation('types', 'body %.300r gave %.300r' % (body, got[0][0]), case)
    else:
        try:
            exp = reference(body.decode('ascii'))
        except UnicodeDecodeError:
            exp = None
        if exp is not None and plain(got[0][0]) != grouped(exp):
            ctx.violation('differs/forms', 'body %.300r gave %.300r, expected %.300r' % (body, got[0][0], grouped(exp)), case)


def _pairs(ctx, case):
    _, pairs, qs, fpairs, form, ctype, framing, method, order = case
    app = W.fresh_app()
    got = {}

    def h():
        rq = app.request
        for name in order:
            got[name] = plain(getattr(rq, name))
        return 'ok'
    app.route('/q', method, h)
    body = form.encode('ascii')
    if form is None or method == 'GET' and not body:
        env = W.environ(method, '/q', qs=qs)
    elif framing == 'cl':
        env = W.environ(method, '/q', qs=qs, body=body, ctype=ctype)
    else:
        n = max(1, len(body) // 3)
        wire = b''.join(b'%x\r\n%b\r\n' % (len(body[i:i + n]), body[i:i + n]) for i in range(0, len(body), n)) + b'0\r\n\r\n'
        env = W.environ(method, '/q', qs=qs, stream=W.Input(wire, (3, 100)), chunked=True, ctype=ctype)
    for _ in range(1):
        res = W.call(app, env)
    ctx.seen(case, bool(pairs or fpairs), 'pairs/%s' % method)
    if res.code != 200:
        ctx.violation('status', 'qs=%.200r form=%.200r: %s %s' % (qs, form, res.brief(), W.errors_text(env)[-600:]), case)
        return
    a, b = grouped(pairs), grouped(fpairs)
    exp = dict(query=a, GET=a, forms=b, POST=b)
    if not (set(a) & set(b)):
        exp['params'] = dict(a, **b)
    for name, e in exp.items():
        if name not in got:
            continue
        ctx.obs['compared_' + name] += 1
        if got[name] != e:
            diff = [k for k in set(e) | set(got[name]) if e.get(k) != got[name].get(k)][:3]
            ctx.violation('differs/' + name, 'qs=%.200r form=%.200r ctype=%r: keys %r: got %.200r expected %.200r' % (
                qs, form, ctype, diff, [got[name].get(k) for k in diff], [e.get(k) for k in diff]), case)
    for d in (a, b):
        for v in d.values():
            if isinstance(v, list):
                ctx.obs['lists_seen'] += 1
                if len(v) > 2:
                    ctx.obs['repeated_three'] += 1
            elif v == '':
                ctx.obs['blank_values'] += 1
    if a and b:
        ctx.obs['both_channels'] += 1
    if len(qs) > 5000 or len(form) > 5000:
        ctx.obs['long_forms'] += 1


KEYCH = ['a', 'b', 'k', 'self', '=', '&', '+', '%', ' ', ';', '#', '?', '/', '\r\n', '\0', '\t', 'é', '日本', '\U0001f600', '%41', '%zz', '%', '[]', '.', '__class__',
         '\x7f', '\xa0', '\u2028', '"', "'", '<', '\\', 'A' * 40, '\ufeff', 'e\u0301', '\ufffd', '\x85', '0', 'İ', 'ß', '\ue000', '\uffff', '1']
UNRESERVED = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~'
SUB = "!$'()*,;:@/?"


def enc_text(rng, t, style, is_key):
    if style == 0:
        return quote_plus(t)
    if style == 1:
        return quote(t, safe='')
    if style == 2:
        return ''.join('%%%02X' % b for b in t.encode('utf8'))
    if style == 3:
        return ''.join('%%%02x' % b for b in t.encode('utf8'))
    out = []
    for ch in t:
        r = rng.random()
        if ch == ' ' and r < .5:
            out.append('+')
        elif ch in UNRESERVED and r < .8 or ch in SUB and r < .5 or ch == '=' and not is_key and r < .5:
            out.append(ch)
        else:
            out.append(''.join(('%%%02X' if rng.random() < .5 else '%%%02x') % b for b in ch.encode('utf8')))
    return ''.join(out)


def rnd_text(rng, mx, nonempty=False):
    n = rng.choice([0, 1, 1, 2, 3, rng.randrange(mx + 1)])
    out = []
    for _ in range(max(n, 1) if nonempty else n):
        r = rng.random()
        if r < .8:
            out.append(rng.choice(KEYCH))
        elif r < .9:
            c = rng.randrange(0x110000)
            out.append(chr(c) if not 0xd800 <= c < 0xe000 else 'x')
        else:
            out.append(chr(rng.randrange(256)))
    r = rng.random()
    if r < .05:
        return AD.spice(rng, ''.join(out), 1)
    if r < .056:
        return rng.choice(['k', 'ab', '\xe9', ' ', '+&']) * AD.number(rng, 4000, 1)
    return ''.join(out)


def rnd_pairs(rng, big=False):
    n = rng.choice([0, 1, 1, 2, 2, 3, 5, 8]) if not big else rng.choice([1, 300, 1500, AD.number(rng, 3000)])
    keys = [rnd_text(rng, 3, True) for _ in range(rng.randrange(1, 5))]
    return [(rng.choice(keys) if rng.random() < .8 else rnd_text(rng, 3, True), rnd_text(rng, 5) if not big else rnd_text(rng, 2) * rng.choice([0, 1, 4, 4000 // max(n, 1) + 1]))
            for _ in range(n)]


def shards(ctx):
    return [('exh', i) for i in range(4)] + [('rand', i) for i in range(ctx.scale(4, 16))]


def run_shard(ctx, shard):
    kind, idx = shard
    rng = ctx.rng
    if kind == 'exh':
        n = 0
        for ln in range(ctx.scale(6, 7) + 1):
            for t in itertools.product(ALPHA, repeat=ln):
                n += 1
                if n % 4 == idx:
                    _raw(ctx, ('raw', ''.join(t), 'request'))
        # tokens instead of characters: deeper
        toks = ['a', 'a=1', '=', '&', '%C3%A9', 'a=b=c']
        for ln in range(1, ctx.scale(7, 8) + 1):
            for t in itertools.product(toks, repeat=ln):
                n += 1
                if n % 4 == idx:
                    _raw(ctx, ('raw', ''.join(t), 'request'))
        return
    for k in range(ctx.scale(6000, 60000)):
        big = k % 100 == 0
        pairs, fpairs = rnd_pairs(rng, big), rnd_pairs(rng, big)
        mode = rng.random()
        if mode < .3:
            fpairs = []
        elif mode < .6:
            pairs = []
        elif mode < .8:
            ks = {k for k, _ in pairs}
            fpairs = [(k + '_f' if k in ks else k, v) for k, v in fpairs]
            fpairs = [(k, v) for k, v in fpairs if k not in ks]

        def enc(ps):
            st = rng.randrange(7)
            if st == 5:
                return urlencode(ps)
            if st == 6:
                return urlencode(ps, quote_via=quote, safe='/')
            return '&'.join('%s=%s' % (enc_text(rng, a, st, True), enc_text(rng, b, st, False)) for a, b in ps)
        qs, form = enc(pairs), enc(fpairs)
        if len(form) > 100 * 1024 or len(qs) > 100 * 1024:
            continue
        ctype = rng.choice(['application/x-www-form-urlencoded', 'application/x-www-form-urlencoded; charset=UTF-8', 'Application/X-WWW-Form-Urlencoded',
                            'application/x-www-form-urlencoded;charset=utf-8'])
        method = rng.choice(['POST', 'POST', 'PUT', 'PATCH', 'DELETE'] + ['GET', 'OPTIONS'])
        order = ['query', 'GET', 'forms', 'POST', 'params']
        rng.shuffle(order)
        run_case(ctx, ('pairs', pairs, qs, fpairs, form, ctype, rng.choice(['cl', 'chunked']), method, tuple(order)))
    frag = ['a', 'b=', '=', '&', '%', '%4', '%zz', '%C3', '%A9', '+', '&&', '==', ';', '\x00', 'é', '\udcff', '\ud800', '日', '%%', 'a=1', '%u1234', '\r\n', ' ', '#', '&=', '=&', '%00', '%FF%FE',
            '%ed%a0%80', '%c0%80', '\U0010ffff']
    for k in range(ctx.scale(10000, 100000)):
        if rng.random() < .7:
            s = ''.join(rng.choice(frag) if rng.random() < .97 else AD.word(rng) for _ in range(rng.randrange(0, 14)))
        else:
            s = ''.join(chr(rng.randrange(rng.choice([128, 256, 0x110000]))) for _ in range(rng.randrange(0, 30)))
        run_case(ctx, ('raw', s, 'request' if k % 4 else 'wsgi'))
        if k % 4 == 0:
            b = s.encode('utf8', 'surrogatepass') if rng.random() < .6 else rng.randbytes(rng.randrange(40))
            run_case(ctx, ('rawbody', b, rng.choice(['application/x-www-form-urlencoded', None, 'text/plain', '']), rng.random() < .4))
    for n in {AD.number(rng, 20000) for _ in range(6)}:
        for t in ('&', 'a=1&', '=', '%', '%41', '+'):
            run_case(ctx, ('raw', t * n, 'request'))
    for s in ('&' * 20000, '=' * 20000, '%' * 20000, 'a=' * 10000, '&=' * 10000, 'a&' * 10000, '+' * 20000, 'x' * 90000, 'a=' + '&' * 30000, 'a=1&' * 10000):
        run_case(ctx, ('raw', s, 'request'))
