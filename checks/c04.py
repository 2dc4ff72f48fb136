"""C04: Content-Length bodies are byte-exact under any read fragmentation; the stream is never read beyond Content-Length."""
import itertools
import socket
import threading

from vlib import autodict as AD
from vlib import wsgi as W

W.NOISE = True
W.AMBIENT = 'body'
PID = 'C04'
LEVEL = 'exploration'
RULE = ('a case is (stream bytes, bytes of the next request behind them, Content-Length, read fragmentation, memory threshold, '
        'content type, sequence of accesses); non-trivial when Content-Length > 0. All fragmentation scripts of short bodies are '
        'enumerated, long ones and real unbuffered socket streams are random')
REQUIRED = ('body_reads', 'short_reads', 'above_threshold', 'below_threshold', 'stream_ended_early', 'bytes_behind_body', 'socket_streams',
            'partial_then_again', 'failed_access_then_again', 'threshold_zero', 'undeclared',
            'large_bodies')
ASSUMPTIONS = ['a server stream returns b"" only at its end (PEP 3333) and read(n) never returns more than n bytes',
               'without a Content-Length (and without chunked encoding) the body is empty, as Request.content_length documents',
               'a stream that ends before Content-Length presents what it delivered (the property speaks of what the stream delivers)']

ACCESS = ['body', 'body', 'half', 'copy', 'input', 'forms', 'json', 'files', 'params', 'iter', 'POST', 'query', 'fresh']


def do_access(ctx, req, ops, expected, out):
    for op in ops:
        if op == 'body':
            out.append((op, req.body.read()))
        elif op == 'half':
            b = req.body
            k = len(expected) // 2
            got = b.read(k)
            if got != expected[:k]:
                out.append((op, got[:1000] + b'<half>'))
            else:
                out.append((op, req.body.read()))
            ctx.obs['partial_then_again'] += 1
        elif op == 'copy':
            out.append((op, req.copy().body.read()))
        elif op == 'fresh':
            # another request object over the same environ, as a mounted application would create
            import ombott
            out.append((op, ombott.request_pkg.Request(req.environ, config=dict(max_memfile_size=7)).body.read()))
        elif op == 'iter':
            out.append((op, b''.join(req.body)))
        elif op == 'input':
            req.body
            out.append((op, req.environ['wsgi.input'].read()))
        elif op == 'query':
            req.query
        else:
            try:
                getattr(req, op)
            except Exception:
                # a client error for this content: the raw body must not change because of it
                ctx.obs['failed_access_then_again'] += 1


def run_case(ctx, case):
    import ombott
    data, tail, declared, script, memfile, maxbody, ctype, ops, via = case
    data, tail = W.expand(data), W.expand(tail)
    stream = W.Input(data, script, tail)
    cl = declared or 0         # None: no header, '': an empty one (CGI) - nothing is declared, nothing may be read
    expected = (data + tail)[:max(cl, 0)]
    cfg = dict(max_memfile_size=memfile, max_body_size=maxbody)
    env = W.environ('POST', '/b', stream=stream, cl=declared, ctype=ctype)
    out = []
    raised = []
    spool = []

    def consume(req):
        try:
            do_access(ctx, req, ops, expected, out)
            b = req.body
            spool.append(W.spooled(b))
        except Exception as e:
            raised.append(e)
            if maxbody is not None and len(expected) > maxbody:
                # a refused body: asking again must not reach beyond either
                try:
                    req.body.read()
                    raised.append('second access presented a body')
                except Exception:
                    pass
                return
            raise

    if via == 'wsgi':
        app = W.fresh_app(cfg)
        app.route('/b', W.BODY_METHODS, callback=lambda: (consume(app.request), 'ok')[1])
        res = W.call(app, env)
        status = res.code
    elif via == 'hook':
        app = W.fresh_app(cfg)
        app.add_hook('before_request', lambda: consume(app.request))
        app.route('/b', W.BODY_METHODS, callback=lambda: (consume(app.request), 'ok')[1])
        res = W.call(app, env)
        status = res.code
    else:
        req = ombott.request_pkg.Request(env, config=cfg)
        try:
            consume(req)
            status = 200
        except Exception as e:
            res = e
            status = 'raised %r' % e
    ctx.seen(case, cl > 0, '%s/%s' % (via, 'spool' if spool and spool[-1] else 'mem'))
    ctx.obs['reads_recorded'] += len(stream.log)
    ctx.obs['short_reads'] += sum(1 for a, g in stream.log if 0 < g < a)
    if tail:
        ctx.obs['bytes_behind_body'] += 1
    if len(expected) < cl:
        ctx.obs['stream_ended_early'] += 1
    if declared in (None, ''):
        ctx.obs['undeclared'] += 1
    if memfile == 0:
        ctx.obs['threshold_zero'] += 1
    if spool:
        ctx.obs['spooled' if spool[-1] else 'in_memory'] += 1
        ctx.obs['above_threshold' if len(expected) > memfile else 'below_threshold'] += 1

    if stream.unbounded:
        ctx.violation('unbounded-read', 'read() without a limit on the server stream', case)
    if stream.reach() > max(cl, 0):
        ctx.violation('beyond-content-length', 'asked for bytes up to offset %d, Content-Length is %d (reads %r)' % (
            stream.reach(), cl, stream.log[:20]), case)
    if maxbody is not None and len(expected) > maxbody:
        ctx.obs['over_limit'] += 1
        if len(raised) > 1 and 'second access presented a body' in raised:
            ctx.violation('body-after-refusal', 'a refused body was presented on the second access', case)
        return
    for op, got in out:
        ctx.obs['body_reads'] += 1
        if got != expected:
            ctx.violation('body-differs/' + op, 'access %s of %r: got %d bytes %r, expected %d bytes %r' % (
                op, ops, len(got), got[:200], len(expected), expected[:200]), case)
    if status != 200:
        ctx.violation('status', 'reading the body failed: %s' % (
            status if isinstance(status, str) else W.Result.brief(res) + W.errors_text(env)[-600:]), case)


def run_socket(ctx, rng):
    """A real unbuffered socket stream: the kernel decides about short reads."""
    import ombott
    n = rng.choice([0, 1, 10, 1000, 70000, 300000, rng.randrange(200000)])
    data = rng.randbytes(n)
    tail = rng.randbytes(rng.choice([0, 3, 5000]))
    memfile = rng.choice([1 + n // 50, 1000, 100 * 1024, 1 << 20])
    cuts = sorted(rng.randrange(n + 1) for _ in range(rng.randrange(8)))
    a, b = socket.socketpair()
    b.settimeout(60)

    def feed():
        try:
            pos = 0
            for c in cuts + [n]:
                a.sendall(data[pos:c])
                pos = c
            a.sendall(tail)
            a.shutdown(socket.SHUT_WR)
        except OSError:
            pass
    t = threading.Thread(target=feed)
    raw = b.makefile('rb', buffering=0)
    t.start()
    app = W.fresh_app(dict(max_memfile_size=memfile))
    got = []
    app.route('/b', W.BODY_METHODS, callback=lambda: got.append(app.request.body.read()) or 'ok')
    env = W.environ('POST', '/b', stream=raw, cl=n)
    res = W.call(app, env)
    ctx.seen((n, tail, memfile, tuple(cuts)), n > 0, 'socket')
    ctx.obs['socket_streams'] += 1
    case = ('socket', data, tail, n, cuts, memfile)
    if got != [data]:
        ctx.violation('socket-body', 'n=%d memfile=%d cuts=%r got %r... %s' % (
            n, memfile, cuts, got and (len(got[0]), got[0][:60]), res.brief() if res else ''), None)
    rest = b''
    while len(rest) < len(tail):
        try:
            x = b.recv(1 << 16)
        except OSError:
            break
        if not x:
            break
        rest += x
    if rest != tail:
        ctx.violation('socket-beyond', 'bytes behind the body were consumed: n=%d memfile=%d %r' % (n, memfile, case[2][:40]), None)
    raw.close()
    b.close()
    t.join(10)
    a.close()


def shards(ctx):
    return [('large', i) for i in range(2)] + [('exh', i) for i in range(4)] + [('rand', i) for i in range(ctx.scale(4, 12))]


def payload(rng, n):
    k = rng.random()
    if k < .3:
        return rng.randbytes(n)
    if k < .6:
        return bytes(rng.choice(b'\r\n-b0;=&') for _ in range(n))
    pat = rng.choice([b'0123456789', b'--b\r\n', b'\0', b'a=1&'])
    return (pat * (n // len(pat) + 1))[:n]


def run_shard(ctx, shard):
    kind, idx = shard
    rng = ctx.rng
    if kind == 'exh':
        n = 0
        maxlen = ctx.scale(5, 7)
        for ln in range(maxlen + 1):
            for cl in range(ln + 2):
                for buf in [0, 1, 2, 3, 4, ln, ln + 1, 64]:
                    for sl in range(4):
                        for script in itertools.product((1, 2, 3), repeat=sl):
                            n += 1
                            if n % 4 != idx:
                                continue
                            data = bytes(range(65, 65 + ln))
                            via = ('req', 'wsgi', 'hook')[n // 4 % 3] if n % 7 == 0 else 'req'
                            run_case(ctx, (data[:cl], data[cl:], cl, script, buf, None, None, ('body', 'body'), via))
        ctx.obs['exhaustive_small'] += 1
        return
    if kind == 'large':
        # uploads of real-life size: no constant of the code marks where they begin
        for k in range(ctx.scale(9, 40)):
            n = int(10 ** rng.uniform(5.5, 7.4)) if k else (75 << 20, 35 << 20)[idx]
            short = rng.random() < .2
            cl = n + (rng.randrange(1, 1 << 20) if short else 0)
            tail = b'' if short else rng.choice([b'', b'GET / HTTP/1.1', ('big', 1 << 20)])
            script = rng.choice([None, (1 << 16,), (65537, 1000, 1 << 18), (n // 2 + 1,), (n - 1, 1)])
            memfile = rng.choice([100 * 1024, 100 * 1024, n // 150, n, n + 1, n - 1, 1 << 26])
            maxbody = rng.choice([None, None, cl, cl + 1, 1 << 31])
            ops = tuple(rng.choice(['body', 'half', 'copy', 'input', 'forms', 'query']) for _ in range(rng.randrange(1, 3))) + ('body',)
            if k % 4 == 3:
                # very many short reads
                n = int(10 ** rng.uniform(4, 5.4)) if k != 3 else 140001 + idx * 77777
                cl, tail, script, memfile = n, b'', rng.choice([(1,), (1, 2), (1, 1, 3)]) if n < 210000 else (1,), rng.choice([100 * 1024, n // 150, n])
                maxbody = None
            ctx.obs['large_bodies'] += 1
            run_case(ctx, (('big', n), tail, cl, script, memfile, maxbody, rng.choice([None, 'application/octet-stream', 'multipart/form-data; boundary=b']),
                           ops, rng.choice(['req', 'wsgi', 'hook'])))
        return
    for k in range(ctx.scale(1500, 9000)):
        big = rng.random() < .06
        n = rng.randrange(1, 400000) if big else rng.choice([0, 1, 2, 5, 17, 64, rng.randrange(3000)]) if rng.random() < .93 else AD.number(rng, 20000 if rng.random() < .8 else 300000)
        data = payload(rng, n)
        cl = rng.choice([n, n, n, n, n + rng.randrange(1, 50), max(0, n - 1), 0])
        tail = payload(rng, rng.choice([0, 0, 1, 40]))
        if cl > n:
            tail = b''         # the stream simply ends
        m = rng.random()
        script = (None if m < .15 else (1,) if m < .25 and not big else
                  tuple(rng.randrange(1, max(2, n)) for _ in range(rng.randrange(1, 6))))
        if n > 5000:
            big = True
            if script == (1,):
                script = (777, 1)
            elif script:
                script = tuple(max(x, n // 300) for x in script)
        lo = n // 200 + 1 if big else 1
        memfile = rng.choice([max(lo, 1), lo + 1, max(n - 1, lo), n or 1, n + 1, max(n // 2, lo), max(n // 3, lo), 100 * 1024]
                             + ([0] if not big else []))
        if rng.random() < .1:
            memfile = AD.number(rng, 1 << 20, lo)
        maxbody = rng.choice([None, None, None, cl, cl + 1, max(0, cl - 1)])
        ctype = rng.choice([None, 'text/plain', 'application/json', 'application/x-www-form-urlencoded',
                            'multipart/form-data; boundary=b', 'multipart/form-data', 'image/png', AD.word(rng).strip(), 'application/' + AD.word(rng).strip()])
        if rng.random() < .1:
            w = AD.word(rng).encode('utf8')
            data = (w + data)[:n] if rng.random() < .5 else (data + w)[-n:] if n else data
        ops = tuple(rng.choice(ACCESS) for _ in range(rng.randrange(1, 5))) + ('body',)
        via = rng.choice(['req', 'wsgi', 'wsgi', 'hook'])
        if via != 'req' and ops.count('fresh') > 1:
            via = 'req'
        if rng.random() < .06:
            cl, declared = 0, rng.choice([None, ''])
        else:
            declared = cl
        run_case(ctx, (data[:cl], data[cl:] + tail, declared, script, memfile, maxbody, ctype, ops, via))
    for k in range(ctx.scale(40, 300)):
        run_socket(ctx, rng)
