"""C06: multipart parsing is independent of how the body is split into reads."""
from vlib import autodict as AD
from vlib import core
from vlib import multipart as M
from vlib import wsgi as W

W.AMBIENT = 'body'
PID = 'C06'
LEVEL = 'exploration'
RULE = ('a case is (boundary, body bytes, division into buffers); its observation (sections with exact ranges, error type and text) is '
        'compared with the observation of the undivided body. Well-formed bodies, every prefix of them, and mutated bodies; all one-cut '
        'and two-cut divisions, byte by byte, regular strides and random ones; also through WSGI with fragmented streams')
REQUIRED = ('undivided_ok', 'prefix_divisions', 'one_cut', 'two_cut', 'bytewise', 'malformed_divisions', 'error_results', 'wsgi_divisions',
            'cut_in_delimiter', 'cut_in_header_end', 'epilogues', 'leading_crlf', 'dictionary_bodies', 'buffer_size_divisions', 'long_bodies')
ASSUMPTIONS = ['buffers are non-empty (an empty read ends the stream)']


def observe(boundary, chunks):
    from ombott.request_pkg.multipart import MultipartMarkup
    m = MultipartMarkup(boundary)
    for c in chunks:
        m.parse(c)
    err = m.error
    return ([(n, tuple(r)) for n, r in m.markups], None if err is None else (type(err).__name__, str(err)))


def split(body, cuts):
    out = []
    p = 0
    for c in cuts:
        if c > p:
            out.append(body[p:c])
            p = c
    if p < len(body):
        out.append(body[p:])
    return out


def compare(ctx, boundary, body, cuts, want, what):
    got = observe(boundary, split(body, cuts))
    ctx.obs['divisions'] += 1
    if got != want:
        ctx.violation('%s/%s' % (what, 'error' if got[1] != want[1] else 'sections'),
                      'boundary=%r body=%.3000r\ncuts=%.400r -> %.3000r\nundivided -> %.3000r' % (boundary, body, cuts, got, want),
                      ('div', boundary, body, tuple(cuts)))
        return False
    return True


def run_case(ctx, case):
    if case[0] == 'div':
        _, boundary, body, cuts = case
        compare(ctx, boundary, body, list(cuts), observe(boundary, [body] if body else []), 'replay')
    else:
        wsgi_case(ctx, case)


def all_divisions(ctx, boundary, body, what, two_cut=True, stride_all=True, rng=None, twocut_sample=None):
    n = len(body)
    want = observe(boundary, [body] if body else [])
    ctx.obs['error_results' if want[1] else 'undivided_ok'] += 1
    ctx.seen((boundary, body), True, what)
    ok = True
    for i in range(1, n):
        ok &= compare(ctx, boundary, body, (i,), want, what)
        ctx.obs['one_cut'] += 1
    for st in range(1, n if stride_all else min(n, 24)):
        ok &= compare(ctx, boundary, body, tuple(range(st, n, st)), want, what)
        ctx.obs['bytewise' if st == 1 else 'strided'] += 1
    if two_cut and ok:
        for i in range(1, n):
            for j in range(i + 1, n):
                if not compare(ctx, boundary, body, (i, j), want, what):
                    return want
        ctx.obs['two_cut'] += n * (n - 1) // 2
    elif twocut_sample and ok and n > 3:
        for _ in range(twocut_sample):
            k = rng.randrange(2, 7)
            # close cuts are the interesting ones
            i = rng.randrange(1, n)
            cuts = sorted({i} | {min(n - 1, i + rng.randrange(1, 8)) for _ in range(k)} | {rng.randrange(1, n)})
            compare(ctx, boundary, body, tuple(cuts), want, what)
        ctx.obs['multi_cut'] += twocut_sample
    return want


HEADERS = ['X-A: b', 'Content-Length: 3', 'X: a\rb', 'X: \r', 'X-Long: ' + 'y' * 40, 'Content-Transfer-Encoding: binary', 'X: -\r-']


def gen_data(rng, boundary, big=False):
    la = M.lookalikes(boundary)
    d = b''.join(rng.choice(la) for _ in range(rng.choice([0, 0, 1, 1, 2, 3] if not big else [5, 20, 60])))
    return d


def word_header(rng):
    w = ''.join(c for c in AD.word(rng) if c.isalnum() or c in '-_')
    v = ''.join(c for c in AD.word(rng) if c not in '\r\n')
    return '%s: %s' % (w or 'X', v) if rng.random() < .8 else '%s:%s' % (w or 'X', 'v' * AD.number(rng, 3000))


def gen_parts(rng, boundary, nmax, big=False):
    parts = []
    for _ in range(rng.randrange(nmax + 1)):
        d = gen_data(rng, boundary, big)
        if rng.random() < .04:
            d += AD.word(rng).encode('utf8') + gen_data(rng, boundary)
        up = rng.random() < .4
        try:
            d.decode()
        except UnicodeDecodeError:
            up = True
        parts.append(M.Part(rng.choice(['a', 'b', 'n m', 'é', '']), d, rng.choice(['f.bin', '', 'x;y=z']) if up else None,
                            rng.choice([None, 'text/plain']), rng.sample(HEADERS, rng.choice([0, 0, 0, 1])) + ([word_header(rng)] if rng.random() < (.2 if big else .03) else []), rng.randrange(4)))
    return parts


def gen_body(rng, nmax, big=False):
    while True:
        boundary = rng.choice(M.BOUNDARIES)
        if rng.random() < .05:
            boundary = ''.join(c for c in AD.word(rng) if c.isascii() and (c.isalnum() or c in "'()+_,-./:=?"))[:70] or 'w'
            if rng.random() < .3:
                boundary = (boundary * 70)[:min(70, max(1, AD.number(rng, 70, 1)))]
        parts = gen_parts(rng, boundary, nmax, big)
        if M.usable(boundary, [p.data for p in parts] + [p.headers() for p in parts]):
            break
    lead = rng.choice([b'', b'', b'\r\n'])
    close = rng.choice([b'\r\n', b'\r\n', b'', b' \r\n'])
    epi = rng.choice([b'', b'', b'', b'epilogue', b'\r\n--' + boundary.encode() + b'\r\nX: y\r\n\r\nz', b'--', b'\r\n\r\n'])
    if not parts and not lead:
        pass
    body, ranges = M.encode(parts, boundary, lead, close, epi if close else b'')
    return boundary, parts, body, ranges, lead, epi if close else b''


def mutate(rng, boundary, body):
    b = bytearray(body)
    tok = boundary.encode('latin1')
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.randrange(len(b) + 1)
        k = rng.random()
        if k < .3 and i < len(b):
            del b[i]
        elif k < .7:
            b[i:i] = rng.choice([b'\r', b'\n', b'\r\n', b'-', b'--', b'x', b'\r\n\r\n', b'--' + tok, b'\r\n--' + tok, b'\r\n--' + tok + b'-',
                                 b'\r\n--' + tok + b'x', b'\r\n--' + tok + b'\r', b'\r\n--' + tok + b'--', b'\r\n\r'])
        elif i < len(b):
            b[i] = rng.choice(b'\r\n-x')
    return bytes(b)


def wsgi_case(ctx, case):
    """fields observed through WSGI with a fragmented stream / buffer size, compared with the undivided observation"""
    _, boundary, body, script, memfile, framing = case

    def serve(script, memfile):
        app = W.fresh_app(dict(max_memfile_size=memfile))
        out = []

        def h():
            rq = app.request
            for k, v in rq.forms.items():
                out.append((k, v))
            for k, v in rq.files.items():
                for u in (v if isinstance(v, list) else [v]):
                    out.append((k, u.raw_filename, u.file.read(), sorted(u.headers.items())))
            return 'ok'
        app.route('/u', W.BODY_METHODS, callback=h)
        kw = dict(ctype='multipart/form-data; boundary="%s"' % boundary)
        if framing == 'chunked':
            n = len(body) // 3 + 1
            wire = b''.join(b'%x\r\n%b\r\n' % (len(body[i:i + n]), body[i:i + n]) for i in range(0, len(body), n)) + b'0\r\n\r\n'
            env = W.environ('POST', '/u', stream=W.Input(wire, script), chunked=True, **kw)
        else:
            env = W.environ('POST', '/u', stream=W.Input(body, script), cl=len(body), **kw)
        res = W.call(app, env)
        return res.code, res.code == 200 and out

    want = serve(None, 1 << 20)
    got = serve(script, memfile)
    ctx.seen(case, True, 'wsgi')
    ctx.obs['wsgi_divisions'] += 1
    if memfile < len(body):
        ctx.obs['buffer_size_divisions'] += 1
        if got[0] == 413:
            return      # the form budget, see C13
    if got != want:
        ctx.violation('wsgi/%s' % framing, 'boundary=%r body=%r script=%r memfile=%r\n -> %r\nundivided -> %r' % (
            boundary, body[:600], script, memfile, got, want), case)


def shards(ctx):
    return [('long', i) for i in range(2)] + [('div', i) for i in range(8)] + [('big', i) for i in range(ctx.scale(4, 8))]


def fixed_bodies():
    """small bodies, chosen so that every state of the parser meets a cut"""
    P = M.Part
    yield 'b', [P('a', b'')], b'', b'\r\n', b''
    yield 'b', [P('a', b'\r\n-')], b'\r\n', b'', b''
    yield '-', [P('a', b'\r\n-\r'), P('f', b'\r\n\r\n', 'n')], b'', b'\r\n', b'--'
    yield '--', [P('a', b'\r'), P('a', b'x')], b'', b'\r\n', b'\r\n----\r\n'
    yield 'aab', [P('a', b'\r\n--aa\r\n--a')], b'\r\n', b'', b''
    yield 'b', [], b'', b'\r\n', b''
    yield 'b', [], b'\r\n', b'', b''
    yield 'b', [P('a', b'x', extra=['X: a\rb', 'Y:\r'])], b'', b'\r\n', b'epi'


def run_shard(ctx, shard):
    kind, idx = shard
    rng = ctx.rng
    if kind == 'long':
        # header blocks, data and buffers of tens and hundreds of kilobytes, uploads of megabytes
        for k in range(ctx.scale(26, 150)):
            bd = rng.choice(M.BOUNDARIES)
            parts = gen_parts(rng, bd, 2)
            n = int(10 ** rng.uniform(3.7, 5.3 if k % 6 else 6.7))
            if k % 2 and n < 300000:
                hs = ['X: ' + 'h' * n] if k % 4 == 1 else ['X-%d: %s' % (i, 'h' * 60) for i in range(min(n // 66, 800))]
                parts.insert(rng.randrange(len(parts) + 1), M.Part('big', b'v', 'f', None, hs))
            else:
                unit = rng.choice([b'x', b'\r\n', b'-', b'\r\n-', b'\n', rng.randbytes(61).replace(b'\r', b''), (b'\r\n--' + bd.encode('latin1'))[:-1]])
                parts.insert(rng.randrange(len(parts) + 1), M.Part('big', (unit * (n // len(unit) + 1))[:n], 'f'))
            if not M.usable(bd, [p.data for p in parts] + [p.headers() for p in parts]):
                continue
            body, ranges = M.encode(parts, bd, rng.choice([b'', b'\r\n']), b'\r\n', rng.choice([b'', b'', b'e' * n]))
            want = observe(bd, [body])
            ctx.seen((bd, len(body), body[:99]), True, 'long')
            ctx.obs['long_bodies'] += 1
            if want[1] is not None:
                ctx.violation('long-body', 'boundary=%r body=%.500r..: %.1000r in one piece, sections are at %.500r' % (bd, body, want, ranges), ('div', bd, body, ()))
            hot = sorted({x + d for h, t in ranges for x in h + t for d in range(-5, len(bd) + 8)} & set(range(1, len(body))))
            if not hot:
                continue
            for _ in range(ctx.scale(40, 100) if n < 400000 else 8):
                compare(ctx, bd, body, tuple(sorted({rng.choice(hot) for _ in range(rng.randrange(1, 4))})), want, 'long')
            for st in (1 << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 20, 8191, 65537, len(body) // 2 + 1):
                # the size a server reads with, the cut somewhere at a delimiter
                off = rng.choice(hot) % st
                compare(ctx, bd, body, tuple(range(off, len(body), st)), want, 'long')
        return
    if kind == 'div':
        bodies = []
        for k, (bd, parts, lead, close, epi) in enumerate(fixed_bodies()):
            if k % 8 == idx:
                body, ranges = M.encode(parts, bd, lead, close, epi)
                bodies.append((bd, parts, body, ranges, lead, epi))
        want_n = ctx.scale(14, 60)
        while len(bodies) < want_n:
            g = gen_body(rng, 2)
            if len(g[2]) < ctx.scale(190, 260):
                bodies.append(g)
        for bd, parts, body, ranges, lead, epi in bodies:
            want = all_divisions(ctx, bd, body, 'well-formed')
            if want[1] is not None:
                ctx.violation('well-formed-error', 'boundary=%r body=%r: error %r in one piece' % (bd, body, want[1]),
                              ('div', bd, body, ()))
            for (h0, h1), (d0, d1) in ranges:
                ctx.obs['cut_in_delimiter'] += len(bd) + 3
                ctx.obs['cut_in_header_end'] += 3
            if lead:
                ctx.obs['leading_crlf'] += 1
            if epi:
                ctx.obs['epilogues'] += 1
            # every prefix: all one-cut divisions and byte by byte
            for p in range(1, len(body)):
                pre = body[:p]
                want = observe(bd, [pre])
                ctx.seen((bd, pre), True)
                step = ctx.scale(3, 1) if p > 40 else 1
                off = rng.randrange(step)
                for i in list(range(1 + off, p, step)) + list(range(max(1, p - 9), p)):
                    compare(ctx, bd, pre, (i,), want, 'prefix')
                    ctx.obs['prefix_divisions'] += 1
                for st in (1, 2, 3, 5, 7):
                    compare(ctx, bd, pre, tuple(range(st, p, st)), want, 'prefix')
                    ctx.obs['prefix_divisions'] += 1
        for _ in range(ctx.scale(60, 1500)):
            g = gen_body(rng, 2)
            bd, body = g[0], mutate(rng, g[0], g[2])
            all_divisions(ctx, bd, body, 'malformed', two_cut=False, stride_all=False, rng=rng, twocut_sample=60)
            ctx.obs['malformed_divisions'] += 1
        return
    for _ in range(ctx.scale(50, 400)):
        bd, parts, body, ranges, lead, epi = gen_body(rng, 5, big=True)
        want = observe(bd, [body])
        ctx.seen((bd, body), True, 'big')
        if want[1] is not None:
            ctx.violation('well-formed-error', 'boundary=%r body=%r: error %r in one piece' % (bd, body, want[1]), ('div', bd, body, ()))
        hot = sorted({x + d for (h, t) in ranges for x in h + t for d in range(-6, len(bd) + 8)})
        hot = [x for x in hot if 0 < x < len(body)]
        for _ in range(ctx.scale(250, 800)):
            cuts = sorted({rng.choice(hot) if hot and rng.random() < .7 else rng.randrange(1, len(body) + 1) for _ in range(rng.randrange(1, 9))})
            compare(ctx, bd, body, tuple(cuts), want, 'well-formed')
        for st in (1, 2, 3, 4, 5, 7, 11, 13, 64, len(bd) + 4, len(bd) + 3, len(bd) + 5, len(bd) + 2):
            compare(ctx, bd, body, tuple(range(st, len(body), st)), want, 'well-formed')
    for _ in range(ctx.scale(12, 100)):
        # sizes the code mentions: long data, long headers, many parts
        bd, parts, *_ = gen_body(rng, 2, big=True)
        n = AD.number(rng, 1 << 17 if rng.random() < .5 else 8000, 1)
        k = rng.random()
        if k < .4:
            unit = rng.choice([b'x', b'\r', b'\r\n', b'-', b'\r\n-', b'\n', rng.randbytes(61).replace(b'\r', b''), (b'\r\n--' + bd.encode('latin1'))[:-1]])
            parts.append(M.Part('big', (unit * (n // len(unit) + 1))[:n], 'f'))
        elif k < .7:
            parts.append(M.Part('big', b'v', 'f', None, ['X: ' + 'h' * min(n, 20000)]))
        else:
            parts += [M.Part('p%d' % i, b'', None) for i in range(min(n, 500))]
        parts += gen_parts(rng, bd, 1)
        if not M.usable(bd, [p.data for p in parts] + [p.headers() for p in parts]):
            continue
        body, ranges = M.encode(parts, bd, rng.choice([b'', b'\r\n']), b'\r\n')
        want = observe(bd, [body])
        ctx.seen((bd, body), True, 'dictionary')
        ctx.obs['dictionary_bodies'] += 1
        if want[1] is not None:
            ctx.violation('well-formed-error', 'boundary=%r body=%.2000r: %.1000r in one piece' % (bd, body, want), ('div', bd, body, ()))
        for _ in range(ctx.scale(12, 30)):
            if rng.random() < .5:
                st = AD.number(rng, len(body), max(1, len(body) // 5000))
                cuts = range(st, len(body), st)
            else:
                base = rng.choice(ranges) if ranges else ((0, 1), (1, 2))
                cuts = sorted({min(len(body) - 1, max(1, rng.choice(base[0] + base[1] + (n, len(body) - n, 2 * n)) + rng.randrange(-4, len(bd) + 8))) for _ in range(rng.randrange(1, 5))})
            compare(ctx, bd, body, tuple(cuts), want, 'well-formed')
    for _ in range(ctx.scale(120, 1500)):
        g = gen_body(rng, 3, big=rng.random() < .2)
        bd, body = g[0], g[2]
        if rng.random() < .3:
            body = mutate(rng, bd, body) if rng.random() < .5 else body[:rng.randrange(len(body) + 1)]
        n = len(body) + 2
        script = rng.choice([None, (1,), (2,), (3,), tuple(rng.randrange(1, max(n // 2, 2)) for _ in range(rng.randrange(1, 5)))])
        memfile = rng.choice([1 << 20, 1 << 20, rng.randrange(1, n), rng.randrange(max(1, n // 2), n + 40), 100])
        with core.watchdog(60):
            wsgi_case(ctx, ('wsgi', bd, body, script, memfile, rng.choice(['cl', 'chunked'])))
