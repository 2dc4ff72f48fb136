"""C05: chunked decoding is exact, every truncation is a client error."""
import itertools
import re

from vlib import autodict as AD
from vlib import core
from vlib import wsgi as W

W.NOISE = True
W.AMBIENT = 'body'
PID = 'C05'
LEVEL = 'exploration'
RULE = ('a case is (bytes on the wire, read fragmentation, memory threshold, Content-Length beside it, accesses); non-trivial when the '
        'wire bytes are not empty. An independent RFC 7230 decoder classifies the bytes as legal (exact payload demanded), cut short or '
        'data without CRLF (4xx demanded), or other garbage (payload or 4xx demanded)')
REQUIRED = ('legal_accepted', 'truncation_rejected', 'no_crlf_rejected', 'garbage_rejected', 'short_reads',
            'extensions', 'trailers', 'second_access_after_failure', 'crlf_split', 'larger_than_buffer', 'many_chunks', 'large_chunks', 'slow_chunks')
ASSUMPTIONS = ['a chunk size line longer than 4096 bytes may be refused',
               'an encoding cut inside the trailer section (behind the zero-size chunk line) may be accepted or refused',
               'an encoding whose size line is outside the grammar is "other framing garbage": accepted or refused, never a fault']

EXT = rb'[ \t]*;[ \t]*[!#$%&\'*+\-.^_`|~0-9A-Za-z]+(?:[ \t]*=[ \t]*(?:[!#$%&\'*+\-.^_`|~0-9A-Za-z]+|"(?:[\t \x21\x23-\x5b\x5d-\x7e\x80-\xff]|\\[\t \x21-\x7e\x80-\xff])*"))?'
LINE = re.compile(rb'([0-9A-Fa-f]+)((?:' + EXT + rb')*)[ \t]*')
TRAILER = re.compile(rb'(?:[!#$%&\'*+\-.^_`|~0-9A-Za-z]+:[\t \x21-\x7e\x80-\xff]*\r\n)*\r\n')


def reference(d):
    """-> (verdict, payload): 'legal' | 'cut' | 'nocrlf' | 'any' | 'tail' (complete but odd behind the last chunk)"""
    out = []
    i = 0
    long_line = False
    while True:
        j = d.find(b'\r\n', i)
        if j < 0:
            rest = d[i:]
            # is what is left a prefix of a well-formed size line?
            if rest == b'' or LINE.fullmatch(rest.rstrip(b'\r')) or re.fullmatch(rb'[0-9A-Fa-f]+[ \t]*;[^\r\n]*\r?', rest):
                return 'cut', None
            return 'any', None
        m = LINE.fullmatch(d[i:j])
        if not m:
            return 'any', None
        if j - i > 4000:
            long_line = True
        n = int(m.group(1), 16)
        i = j + 2
        if n == 0:
            p = b''.join(out)
            if long_line:
                return 'long', p
            return ('legal' if TRAILER.match(d, i) else 'tail'), p
        out.append(d[i:i + n])
        i += n
        if len(d) < i + 2:
            if d[i:] not in (b'', b'\r'):
                return 'nocrlf', None
            return 'cut', None
        if d[i:i + 2] != b'\r\n':
            return 'nocrlf', None
        i += 2


def run_case(ctx, case):
    wire, script, memfile, cl, te, ops, via = case
    if isinstance(wire, (tuple, list)):
        # ('large', sizes of the chunks, bytes cut off the end)
        wire = b''.join(b'%x\r\n%b\r\n' % (n, W.expand(('big', n))) for n in wire[1]) + b'0\r\n\r\n'
        wire = wire[:len(wire) - case[0][2]]
    verdict, payload = reference(wire)
    stream = W.Input(wire, script)
    env = W.environ('POST', '/b', stream=stream, cl=cl, ctype='application/octet-stream', extra={'HTTP_TRANSFER_ENCODING': te})
    got = []
    errs = []
    after = []

    def consume(req):
        for op in ops:
            try:
                if op == 'copy':
                    v = req.copy().body.read()
                elif op == 'forms':
                    req.forms
                    continue
                elif op == 'half':
                    b = req.body
                    v = b.read(3)
                    v = v + b.read()
                else:
                    v = req.body.read()
            except Exception as e:
                if op == 'forms' and not isinstance(getattr(e, 'status_code', None), int):
                    raise
                errs.append(e)
                if op == 'forms' and getattr(e, 'status_code', 0) == 413:
                    errs.pop()      # a large form, not a broken body
                continue
            got.append(v)
            if errs:
                after.append((op, v))
        if got:
            ctx.obs['spooled'] += W.spooled(req.body)
        if errs:
            raise errs[0]

    app = W.fresh_app(dict(max_memfile_size=memfile))
    if via == 'hook':
        def early():
            try:
                app.request.body.read(1)
            except Exception:
                pass
        app.add_hook('before_request', early)
    app.route('/b', W.BODY_METHODS, callback=lambda: (consume(app.request), 'ok')[1])
    try:
        with core.watchdog(20):
            res = W.call(app, env)
    except core.Hang:
        ctx.violation('hang', 'decoding did not finish in 20 s of CPU time', case)
        return
    ctx.seen(case, bool(wire), verdict)
    ctx.obs['short_reads'] += sum(1 for a, g in stream.log if 0 < g < a)
    code = res.code
    ctx.obs['wire_' + verdict] += 1
    if res.escaped is not None or code is None or not (code == 200 or 400 <= code < 500):
        ctx.violation('fault/' + verdict, 'neither acceptance nor client error: %s %s' % (
            res.brief(), W.errors_text(env)[-500:]), case)
        return
    if len(errs) > 1:
        ctx.obs['second_access_after_failure'] += 1
    if after:
        ctx.violation('body-after-failure', 'reading the body failed (%r), then access %s presented %r' % (
            errs[0], after[0][0], after[0][1][:100]), case)
    if verdict == 'legal' or (code == 200 and verdict in ('tail', 'long')):
        if code != 200:
            ctx.violation('legal-refused', 'a legal encoding was refused: %s (payload %r)' % (res.brief(), payload[:100]), case)
            return
        ctx.obs['legal_accepted'] += 1
        if b';' in wire:
            ctx.obs['extensions'] += 1
        if wire.endswith(b'Z\r\n\r\n'):
            ctx.obs['trailers'] += 1
        if len(payload) > memfile:
            ctx.obs['larger_than_buffer'] += 1
        if script and script[0] == 1:
            ctx.obs['crlf_split'] += 1
        for v in got:
            ctx.obs['body_reads'] += 1
            if v != payload:
                ctx.violation('payload', 'got %d bytes %r, payload is %d bytes %r' % (
                    len(v), v[:100], len(payload), payload[:100]), case)
                break
    elif verdict in ('cut', 'nocrlf'):
        if code == 200:
            ctx.violation(verdict + '-accepted', 'presented %r as the body of %r' % (got[:1], wire[-80:]), case)
        else:
            ctx.obs['truncation_rejected' if verdict == 'cut' else 'no_crlf_rejected'] += 1
    elif code == 200:
        ctx.obs['garbage_accepted'] += 1
    else:
        ctx.obs['garbage_rejected'] += 1


EXTS = [b'', b'', b'', b';a', b';a=b', b';a="x;y"', b' ; a = "q\\"z"', b';a=1;b=2;c', b';n="0"', b'\t', b' ', b';0', b';a="5"']
TRAILERS = [b'\r\n', b'\r\n', b'\r\n', b'X-T: 1Z\r\n\r\n', b'A: b\r\nX-Sum: 00Z\r\n\r\n', b'T:Z\r\n\r\n']


def word_ext(rng):
    t = [''.join(c for c in AD.word(rng) if c.isascii() and c.isalnum()) or 'e' for _ in range(2)]
    return (rng.choice([';%s', ';%s=%s', '; %s="%s"', ';%s;%s']).replace('%s', t[0], 1).replace('%s', t[1]) if rng.random() < .7 else ';e=' + 'x' * AD.number(rng, 3900)).encode()


def word_trailer(rng):
    t = [''.join(c for c in AD.word(rng) if c.isascii() and c.isalnum() or c in '-_') or 'e' for _ in range(2)]
    return ('%s: %s\r\n' % tuple(t)).encode() * (rng.choice([1, 1, 2]) if rng.random() < .8 else AD.number(rng, 200)) + b'\r\n'


def encode(rng, payload, cuts):
    out = []
    pos = 0
    for c in cuts + [len(payload)]:
        part = payload[pos:c]
        pos = c
        if not part:
            continue
        h = b'%x' % len(part)
        h = rng.choice([h, h, h.upper(), b'0' + h, b'000000000000000000' + h])
        out.append(h + (rng.choice(EXTS) if rng.random() < .95 else word_ext(rng)) + b'\r\n' + part + b'\r\n')
    z = rng.choice([b'0', b'0', b'0', b'00', b'0000000000'])
    out.append(z + rng.choice(EXTS) + b'\r\n' + (rng.choice(TRAILERS) if rng.random() < .96 else word_trailer(rng)))
    return b''.join(out)


def gen_payload(rng, big):
    n = rng.randrange(200, 300000) if big else rng.choice([0, 1, 2, 3, 10, 16, 17, rng.randrange(300), AD.number(rng, 5000)])
    if not big and rng.random() < .02:
        n = AD.number(rng, 200000)
    k = rng.random()
    if k < .04:
        return (AD.word(rng).encode('utf8') * n)[:n]
    if k < .4:
        return rng.randbytes(n)
    if k < .7 and not big:
        return bytes(rng.choice(b'\r\n0;5aA') for _ in range(n))
    pat = rng.choice([b'0\r\n\r\n', b'5\r\nhello\r\n', b'\r\n', b'abc'])
    return (pat * (n // len(pat) + 1))[:n]


def gen_ops(rng):
    return tuple(rng.choice(['body', 'body', 'half', 'copy', 'forms']) for _ in range(rng.randrange(1, 4)))


def mutate(rng, w):
    w = bytearray(w)
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.random()
        i = rng.randrange(len(w) + 1)
        if k < .3 and i < len(w):
            w[i] = rng.choice(b'0123456789abcdefABCDEFgxX-+_ \t\r\n;"\0\xff')
        elif k < .5 and i < len(w):
            del w[i]
        elif k < .75:
            w[i:i] = rng.choice([b'\r', b'\n', b'\r\n', b'0', b' ', b'-', b'+', b'0x', b'_', b';', b'0\r\n', b'1\r\n', b'\0', b'\xd9\xa5'])
        elif k < .85:
            j = rng.randrange(len(w) + 1)
            del w[min(i, j):max(i, j)]
        else:
            j = rng.randrange(len(w) + 1)
            w[i:i] = w[min(i, j):max(i, j)][:60]
    return bytes(w)


def shards(ctx):
    return [('large', 0)] + [('exh', i) for i in range(3)] + [('rand', i) for i in range(ctx.scale(5, 13))]


def run_shard(ctx, shard):
    kind, idx = shard
    rng = ctx.rng
    if kind == 'exh':
        # every wire string of the seeds, every prefix, every fragmentation script, several buffers
        base = [b'0\r\n\r\n', b'1\r\nX\r\n0\r\n\r\n', b'3\r\nabc\r\n0\r\n\r\n', b'2;e=1\r\n\r\n\r\n1\r\n0\r\n0\r\n\r\n',
                b'A\r\n0123456789\r\n00;z\r\nT: v\r\n\r\n', b'4\r\n0\r\n\r\r\n0\r\n\r\n']
        n = 0
        for w in base:
            for cut in range(len(w) + 1):
                for sl in range(ctx.scale(4, 5)):
                    for script in itertools.product((1, 2, 3), repeat=sl):
                        for buf in (1, 2, 3, 5, 100):
                            n += 1
                            if n % 3 == idx and (n // 3 % ctx.scale(4, 1) == 0 or sl < 2):
                                run_case(ctx, (w[:cut], script, buf, None, 'chunked', ('body', 'body'), 'wsgi'))
        # every short string over a framing alphabet
        n = 0
        for ln in range(ctx.scale(6, 7)):
            for t in itertools.product(b'01a\r\n;', repeat=ln):
                n += 1
                if n % 3 == idx:
                    run_case(ctx, (bytes(t), None, (1, 64)[n % 2], None, 'chunked', ('body',), 'wsgi'))
                if n > ctx.scale(10000, 60000):
                    break
        return
    if kind == 'large':
        # chunks that arrive byte by byte
        for k in range(ctx.scale(6, 30)):
            sizes = tuple(int(10 ** rng.uniform(3.5, 5)) for _ in range(rng.randrange(1, 3))) if k else (140000,)
            n = sum(sizes)
            ctx.obs['slow_chunks'] += 1
            run_case(ctx, (('large', sizes, rng.choice([0, 0, 0, 5])), rng.choice([(1,), (1,), (1, 2)]), rng.choice([100 * 1024, n // 150, n]), None, 'chunked', gen_ops(rng), rng.choice(['wsgi', 'hook'])))
        # chunks as big as uploads are: no constant of the code marks where they begin
        for k in range(ctx.scale(14, 80)):
            sizes = tuple(int(10 ** rng.uniform(4.5, 6.9)) for _ in range(rng.randrange(1, 5)))
            if k < 4:
                sizes = ((40 << 20,), (1 << 20, (1 << 20) + 1), (1 << 24, 5), (3, (1 << 24) - 1, 70000))[k]
            n = sum(sizes)
            cut = rng.choice([0, 0, 0, 4, 5, 6, 7, rng.randrange(n)])
            script = rng.choice([None, (1 << 16,), (65537, 1000, 1 << 18), (n // 2 + 1,), (n - 1, 1)])
            ctx.obs['large_chunks'] += 1
            run_case(ctx, (('large', sizes, cut), script, rng.choice([100 * 1024, 100 * 1024, n // 150, n, n + 1, 1 << 27]),
                           rng.choice([None, None, 0, n]), 'chunked', gen_ops(rng), rng.choice(['wsgi', 'hook'])))
        return
    for k in range(ctx.scale(420, 5000)):
        big = rng.random() < .06
        p = gen_payload(rng, big)
        cuts = sorted(rng.randrange(len(p) + 1) for _ in range(rng.choice([0, 1, 2, 5, 20] if not big else [0, 3, 30])))
        if rng.random() < .1:
            st = AD.number(rng, len(p) + 1, max(1, len(p) // 300))
            cuts = list(range(st, len(p), st))
        big = big or len(p) > 3000
        w = encode(rng, p, cuts)
        memfile = rng.choice([max(1, len(p) // 150), len(p) or 1, len(p) + 1, max(1, len(p) - 1), 100 * 1024] +
                             ([1, 2, 3, 7, 64, 0] if not big else [1000, 4096]))
        if rng.random() < .08:
            memfile = AD.number(rng, 1 << 20, len(p) // 150)
        m = rng.random()
        script = (None if m < .2 else (1,) if m < .4 and not big else
                  tuple(rng.randrange(1, max(2, len(p))) for _ in range(rng.randrange(1, 6))))
        te = rng.choice(['chunked', 'chunked', 'Chunked', 'CHUNKED', 'gzip, chunked'])
        cl = rng.choice([None, None, None, 0, 1, len(p), len(w), len(w) + 7])
        via = rng.choice(['wsgi', 'wsgi', 'hook'])
        run_case(ctx, (w, script, memfile, cl, te, gen_ops(rng), via))
        # truncations: all of a short one, some of a long one
        pts = range(len(w)) if len(w) < 60 else [rng.randrange(len(w)) for _ in range(ctx.scale(6, 20))]
        for c in pts if k % 3 == 0 or len(w) >= 60 else list(pts)[::3]:
            run_case(ctx, (w[:c], script, memfile, rng.choice([cl, c]), te, gen_ops(rng), via))
        if not big:
            for _ in range(ctx.scale(5, 10)):
                run_case(ctx, (mutate(rng, w), script, memfile, cl, te, gen_ops(rng), via))
            run_case(ctx, (bytes(rng.choice(b'0123456789abcdefF\r\n;\r\n ') for _ in range(rng.randrange(30))), script,
                           memfile, cl, te, gen_ops(rng), via))
    for n in [(10, 6000), (20, 3000), (35, 1500), (70, 900), (140, 20000)][idx % 5] + tuple(AD.number(rng, 30000, 2) for _ in range(ctx.scale(3, 12))):
        # many chunks, of one byte or a few
        size = rng.choice([1, 1, 2, 9, 17]) if n < 3000 else 1
        p = (b'0\r\n\r\nabc' * (n * size // 8 + 1))[:n * size]
        w = encode(rng, p, list(range(size, len(p), size)))
        for script, buf in ((None, 100 * 1024), (None, len(p) // 120 + 1), ((3, 1, 1000), 1 << 20)):
            run_case(ctx, (w, script, buf, None, 'chunked', gen_ops(rng), 'wsgi'))
        run_case(ctx, (w[:rng.randrange(len(w) - 5)], None, 1 << 20, None, 'chunked', ('body', 'body'), 'wsgi'))
        ctx.obs['many_chunks'] += 1
    for _ in range(20):
        # long size lines
        n = rng.choice([100, 1000, 3000, 5000, 200000])
        w = b'5;' + b'x' * n + b'\r\nhello\r\n' + b'0' * rng.choice([1, n]) + b'\r\n\r\n'
        run_case(ctx, (w, None, rng.choice([1, 10, 100, 100000]), None, 'chunked', ('body', 'body'), 'wsgi'))
