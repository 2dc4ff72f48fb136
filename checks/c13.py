"""C13: body size limits and disk spooling bound what a request can consume."""
import json
import os
import stat
import tracemalloc
from urllib.parse import quote_plus

from vlib import autodict as AD
from vlib import core
from vlib import multipart as M
from vlib import wsgi as W

W.NOISE = True
W.AMBIENT = 'body'
PID = 'C13'
LEVEL = 'exploration'
RULE = ('a case is (kind of body, body bytes, max_body_size, max_memfile_size, framing and chunk sizes, read fragmentation, what is accessed and '
        'where); sizes sit at limit-1, limit, limit+1 and far above both limits; non-trivial when the body is not empty')
REQUIRED = ('accepted', 'accepted_at_limit', 'refused_413', 'refused_limit_plus_one', 'refused_chunked', 'refused_cl', 'bounded_reads_judged', 'on_disk',
            'at_threshold', 'form_refused', 'json_refused', 'multipart_text_refused', 'multipart_text_at_budget', 'big_file_part_accepted',
            'memory_peaks_judged', 'refused_then_again', 'default_config', 'limit_zero', 'threshold_zero', 'refused_form_then_body',
            'hostile_chunked', 'hostile_cl', 'hostile_bounded', 'large_limits')
ASSUMPTIONS = ['"one buffer" is max_memfile_size, the buffer size of the body reader (at least 1); under chunked framing the framing bytes in between do not count',
               'multipart header lines may or may not count towards the in-memory budget: text + headers within the threshold must be accepted, '
               'text alone above it must be refused',
               'memory peaks (tracemalloc) are judged only for bodies at least 32 times the allowance']


def encode_chunks(data, sizes, style):
    """-> (wire, wire offset behind payload byte i for the bound)"""
    out = bytearray()
    ends = []          # (payload count, wire offset behind it)
    i = k = 0
    while i < len(data):
        n = max(1, sizes[k % len(sizes)])
        k += 1
        part = data[i:i + n]
        h = '%x' % len(part)
        if style == 1:
            h = h.upper()
        elif style == 2:
            h = '00' + h
        elif style == 3:
            h += ';x=1'
        out += h.encode() + b'\r\n'
        start = len(out)
        out += part
        ends.append((i, i + len(part), start))
        out += b'\r\n'
        i += len(part)
    out += b'0\r\n\r\n'
    return bytes(out), ends


def wire_bound(ends, payload, total):
    """Furthest wire offset a reader may reach that consumed at most `payload` payload bytes (framing up to the next payload byte is free)."""
    for a, b, start in ends:
        if payload < b:
            return start + payload - a if payload > a else start
    return total


def on_disk(b):
    if getattr(b, '_rolled', True) is False:
        return 'spooled file still in memory'
    try:
        st = os.fstat(b.fileno())
    except Exception as e:
        return 'no file descriptor (%s: %r)' % (type(b).__name__, e)
    if not stat.S_ISREG(st.st_mode):
        return 'not a regular file'
    return None


def build(kind, n, spec):
    """-> (body, content type, expected fields, text bytes, header bytes)"""
    if kind == 'raw':
        pat = spec or b'0123456789abcdef'
        return (pat * (n // len(pat) + 1))[:n], 'application/octet-stream', None, 0, 0
    if kind == 'form':
        # exactly n bytes
        if n < 2:
            return b'a'[:n], 'application/x-www-form-urlencoded', {'a': ''} if n else {}, n, 0
        if spec == 'many':
            pairs = n // 4
            keys = ['%c%c' % (97 + i % 26, 97 + i // 26 % 26) for i in range(pairs)]
            body = '&'.join('%s=' % k for k in keys)
            body += '&' * (n - len(body))
            exp = {}
            for k in keys:
                exp.setdefault(k, []).append('')
            return body.encode(), 'application/x-www-form-urlencoded', {k: v if len(v) > 1 else v[0] for k, v in exp.items()}, n, 0
        body = 'k=' + 'v' * (n - 2)
        return body.encode(), 'application/x-www-form-urlencoded', {'k': 'v' * (n - 2)}, n, 0
    if kind == 'json':
        if n < 9:
            return b'{}' + b' ' * max(0, n - 2), 'application/json', {}, n, 0
        return b'{"k": "' + b'v' * (n - 9) + b'"}', 'application/json', {'k': 'v' * (n - 9)}, n, 0
    # multipart; spec: tuple of (name, size, is file)
    parts = [M.Part(nm, (b'%d' % i + b't' * sz)[:sz] if not f else (b'\r\n--f' * (sz // 5 + 1))[:sz], 'f.bin' if f else None)
             for i, (nm, sz, f) in enumerate(spec)]
    body, rng = M.encode(parts, 'XbX')
    exp = {}
    for p in parts:
        exp.setdefault(p.name, []).append(p.data if p.filename else p.data.decode())
    text = sum(len(p.data) for p in parts if p.filename is None)
    hdr = sum(b - a for (a, b), _ in rng)
    return body, 'multipart/form-data; boundary=XbX', {k: v if len(v) > 1 else v[0] for k, v in exp.items()}, text, hdr


class Count:
    n = 0

    def append(self, x):
        self.n += 1

    def __len__(self):
        return self.n

    def __iter__(self):
        return iter(())


class Big:
    """a stream of `n` more bytes behind `head`, made on the fly, that counts what is taken"""

    def __init__(self, head, n, fill=b'x', script=None):
        self.head, self.rest, self.fill, self.script = head, n, fill, script
        self.consumed = self.unbounded = self.k = 0
        self.top = self.useless = 0

    def read(self, n=-1):
        if n is None or n < 0:
            self.unbounded += 1
            n = len(self.head) + self.rest
        if self.script:
            n = min(n, self.script[self.k % len(self.script)])
            self.k += 1
        self.top = max(self.top, n)
        out = self.head[:n]
        self.head = self.head[n:]
        m = min(self.rest, n - len(out))
        self.rest -= m
        if m:
            out += self.fill * m
        self.consumed += len(out)
        if not out:
            self.useless += 1
            if self.useless > core.USELESS_READS:
                raise core.Spin()
        return out

    def readline(self, n=-1):
        out = b''
        while (n is None or n < 0 or len(out) < n) and not out.endswith(b'\n'):
            c = self.read(1)
            if not c:
                break
            out += c
        return out


def hostile(ctx, case):
    """broken framing or a length that promises far more than comes: what is taken from the stream stays bounded, and what it costs"""
    _, framing, payload, line, filler, limit, buf, script, access = case
    app = W.fresh_app(dict(max_body_size=limit, max_memfile_size=buf))
    app.route('/p', W.BODY_METHODS, callback=lambda: (getattr(app.request, access), 'ok')[1])
    ctype = {'json': 'application/json', 'files': 'multipart/form-data; boundary=x'}.get(access, 'application/x-www-form-urlencoded')
    if framing == 'chunked':
        wire, _ = encode_chunks(b'p' * payload, (max(1, payload),), 0)
        head = wire[:-5] + line + b'\r\n'
        stream = Big(head, filler, script=script)
        env = W.environ('POST', '/p', stream=stream, chunked=True, ctype=ctype)
    else:
        head = b'p' * payload
        stream = Big(head, filler, script=script)
        env = W.environ('POST', '/p', stream=stream, cl=line.decode(), ctype=ctype)
    tracemalloc.start()
    tracemalloc.reset_peak()
    base = tracemalloc.get_traced_memory()[0]
    try:
        res = W.call(app, env)
    finally:
        peak = tracemalloc.get_traced_memory()[1] - base
        tracemalloc.stop()
    ctx.seen(case, True, 'hostile/%s/%s' % (framing, res.code))
    ctx.obs['hostile_' + framing] += 1
    info = 'payload=%d size=%r filler=%d limit=%r threshold=%d access=%s: read %d bytes, peak %d, %s' % (
        payload, line, filler, limit, buf, access, stream.consumed, peak, res.brief()[:200])
    if stream.unbounded:
        ctx.violation('hostile-unbounded-read/%s' % framing, info, case)
    if limit is not None:
        # limit plus one buffer, behind the framing of what came before
        allowed = len(head) + limit + max(buf, 1) + 4096 + len(line)
        if stream.consumed > allowed:
            ctx.violation('hostile-reads/%s' % framing, 'allowed %d; %s' % (allowed, info), case)
        ctx.obs['hostile_bounded'] += 1
    if peak > 8 * max(buf, 65536) + (1 << 18):
        ctx.violation('hostile-memory/%s' % framing, info, case)


def run_case(ctx, case):
    if case[0] == 'hostile':
        return hostile(ctx, case)
    kind, n, spec, limit, memfile, framing, sizes, style, script, access, where, again, config_via, trace = case
    body, ctype, expected, text, hdr = build(kind, n, spec)
    n = len(body)
    cfg = {}
    if limit != 'default':
        cfg['max_body_size'] = limit
    if memfile != 'default':
        cfg['max_memfile_size'] = memfile
    lim = None if limit == 'default' else limit
    buf = 100 * 1024 if memfile == 'default' else memfile
    if config_via == 'setup':
        app = W.fresh_app(None)
        app.setup(cfg)
    else:
        app = W.fresh_app(cfg)
    seen = dict(body=[], fields=[], disk=[], err=[])

    def peek(b):
        seen['disk'].append(on_disk(b))
        h = []
        while True:
            x = b.read(65536)
            if not x:
                break
            h.append(x)
            if trace:
                # judged for memory: compare piecewise, keep nothing
                off = seen.setdefault('off', 0)
                if body[off:off + len(x)] != x:
                    seen['differs'] = off
                seen['off'] = off + len(x)
                h.clear()
        if trace:
            if seen.pop('off', 0) != len(body):
                seen['differs'] = 'length'
        else:
            seen['body'].append(b''.join(h))

    def touch(rq):
        if access == 'body':
            peek(rq.body)
        elif access == 'copy':
            peek(rq.copy().body)
        elif access == 'input':
            rq.body
            peek(rq.environ['wsgi.input'])
        elif access == 'json':
            seen['fields'].append(rq.json)
        elif access == 'files':
            rq.files
            seen['fields'].append(None)
        else:
            got = getattr(rq, access)
            if trace:
                seen['fields'].append(None)
            else:
                flat = {}
                for k, v in (got or {}).items():
                    vs = [x.file.seek(0) or x.file.read() if hasattr(x, 'file') else x for x in (v if isinstance(v, list) else [v])]
                    flat[k] = vs if isinstance(v, list) else vs[0]
                seen['fields'].append(flat)

    def consume():
        rq = app.request
        if again:
            try:
                touch(rq)
            except Exception as e:
                seen['err'].append(e)
                if again == 'body':
                    peek(rq.body)
                    return 'read'
            touch(rq)
        else:
            touch(rq)
        return 'ok'

    if where == 'hook':
        app.add_hook('before_request', consume)
        app.route('/p', W.BODY_METHODS, callback=lambda: 'ok')
    elif where == 'generator':
        def g():
            yield consume()
        app.route('/p', W.BODY_METHODS, callback=g)
    else:
        app.route('/p', W.BODY_METHODS, callback=consume)
    if framing == 'cl':
        stream = W.Input(body, script)
        env = W.environ('POST', '/p', stream=stream, cl=n, ctype=ctype)
        bound = lambda p: p
    else:
        wire, ends = encode_chunks(body, sizes, style)
        stream = W.Input(wire, script)
        env = W.environ('POST', '/p', stream=stream, chunked=True, ctype=ctype)
        bound = lambda p: wire_bound(ends, p, len(wire))
    peak = None
    if trace:
        stream.log = Count()     # the record of the reads is not memory of the request
        tracemalloc.start()
        tracemalloc.reset_peak()
        base = tracemalloc.get_traced_memory()[0]
    try:
        res = W.call(app, env)
    finally:
        if trace:
            peak = tracemalloc.get_traced_memory()[1] - base
            tracemalloc.stop()
    code = res.code
    ctx.seen(case, n > 0, '%s/%s/%s' % (kind, framing, code))
    ctx.obs['reads_recorded'] += len(stream.log)
    if limit == 0:
        ctx.obs['limit_zero'] += 1
    if memfile == 0:
        ctx.obs['threshold_zero'] += 1
    if limit == 'default' and memfile == 'default':
        ctx.obs['default_config'] += 1
    info = 'n=%d limit=%r threshold=%r framing=%s access=%s where=%s: %s %s' % (
        n, limit, memfile, framing, access, where, res.brief()[:300], W.errors_text(env)[-500:])

    if lim is not None and n > lim:
        if code != 413:
            ctx.violation('over-limit-not-413/%s' % framing, info, case)
            return
        ctx.obs['refused_413'] += 1
        ctx.obs['refused_%s' % framing] += 1
        if n == lim + 1:
            ctx.obs['refused_limit_plus_one'] += 1
        if again:
            ctx.obs['refused_then_again'] += 1
        allowed = bound(lim + max(buf, 1))
        ctx.obs['bounded_reads_judged'] += 1
        if stream.consumed > allowed or stream.unbounded:
            ctx.violation('reads-beyond-limit/%s' % framing, 'read %d bytes, allowed %d (limit plus one buffer); %s' % (
                stream.consumed, allowed, info), case)
        if seen['body'] or seen['fields']:
            ctx.violation('over-limit-delivered', info, case)
        return

    # within the limit
    must_refuse = False
    may_refuse = False
    if access in ('forms', 'POST', 'params', 'json', 'files'):
        if kind in ('form', 'json'):
            if not (access == 'json' and kind == 'form'):
                # forms of a json body are the json object
                must_refuse = n > buf
        elif kind == 'mp' and access != 'json':
            must_refuse = text > buf
            may_refuse = text + hdr > buf
        elif kind == 'raw' and access != 'json':
            may_refuse = True       # arbitrary text taken as urlencoded
    if must_refuse and again == 'body':
        # the form is refused, the body itself is still there
        if code != 200:
            ctx.violation('body-lost-after-form-refused', info, case)
            return
        ctx.obs['refused_form_then_body'] += 1
        if not seen['err']:
            ctx.violation('form-text-not-refused/%s' % kind, info, case)
            return
    elif must_refuse:
        if code != 413:
            ctx.violation('form-text-not-refused/%s' % kind, 'text=%d headers=%d %s' % (text, hdr, info), case)
            return
        ctx.obs[{'form': 'form_refused', 'json': 'json_refused', 'mp': 'multipart_text_refused'}[kind]] += 1
    elif may_refuse and code == 413:
        ctx.obs['either_refused'] += 1
    else:
        if code != 200:
            ctx.violation('within-limit-refused/%s' % kind, 'text=%d headers=%d %s' % (text, hdr, info), case)
            return
        ctx.obs['accepted'] += 1
        if lim == n:
            ctx.obs['accepted_at_limit'] += 1
        if kind == 'mp' and text + hdr == buf:
            ctx.obs['multipart_text_at_budget'] += 1
        if kind == 'mp' and n > 2 * buf:
            ctx.obs['big_file_part_accepted'] += 1
        if n == buf:
            ctx.obs['at_threshold'] += 1
        for f in seen['fields']:
            if f is not None and kind != 'raw' and not (access == 'json' and kind != 'json'):
                if dict(f) != expected:
                    ctx.violation('content/%s' % kind, 'fields differ: got %.200r expected %.200r %s' % (f, expected, info), case)
    for b in seen['body']:
        if b != body:
            ctx.violation('content/body', 'body differs (%d bytes, expected %d) %s' % (len(b), n, info), case)
    if 'differs' in seen:
        ctx.violation('content/body', 'body differs at %r %s' % (seen['differs'], info), case)
    if n > buf:
        for d in seen['disk']:
            if d:
                ctx.violation('not-on-disk', d + ' ' + info, case)
            else:
                ctx.obs['on_disk'] += 1
    if trace:
        allowance = 8 * max(buf, 65536) + (1 << 18)
        if n >= 8 << 20:
            ctx.obs['memory_peaks_judged'] += 1
            if peak > allowance:
                ctx.violation('memory-peak/%s' % kind, 'peak of %d traced bytes for a body of %d, threshold %d (allowance %d) %s' % (
                    peak, n, buf, allowance, info), case)


def shards(ctx):
    return [('edges', i) for i in range(4)] + [('rand', i) for i in range(ctx.scale(4, 16))] + [('memory', i) for i in range(ctx.scale(2, 4))] + [('hostile', 0), ('large', 0)]


def run_shard(ctx, shard):
    kind, idx = shard
    rng = ctx.rng
    if kind == 'edges':
        k = 0
        for limit in (None, 0, 1, 2, 5, 16, 33):
            for buf in (0, 1, 2, 3, 7, 16, 40):
                top = sorted({0, 1, buf, buf + 1, buf - 1} | ({limit - 1, limit, limit + 1, limit + 2, limit + buf, limit + buf + 1, limit + buf + 2,
                                                                limit + 2 * buf + 1, 10 * (limit + buf) + 3} if limit is not None else {2 * buf, 5 * buf + 3}))
                for n in top:
                    if n < 0:
                        continue
                    for framing in ('cl', 'chunked'):
                        for sizes in ([(1,)] if framing == 'cl' else [(1,), (max(1, buf),), (buf + 1,), (max(n, 1),), (3, 1, 2)]):
                            for script in (None, (1,), (2, 1)):
                                for access in ('body', 'forms', 'json'):
                                    k += 1
                                    if k % 4 != idx:
                                        continue
                                    bk = {'body': 'raw', 'forms': 'form', 'json': 'json'}[access]
                                    if bk == 'json' and n < 2:
                                        continue
                                    if n > 12 and script and k % 3:
                                        continue
                                    run_case(ctx, (bk, n, None, limit, buf, framing, sizes, 0, script, access,
                                                   ('handler', 'hook', 'generator')[k // 4 % 3], (None, None, True)[k // 12 % 3], 'init', False))
        return
    if kind == 'hostile':
        lines = [b'-1', b'-5', b'-ffff', b'-0', b'', b' ', b'x', b'0x', b'0x5', b'+5', b'1_0', b'--1', b'1e3', b'7fffffff', b'80000000', b'ffffffff', b'ffffffffffffffff',
                 b'f' * 40, b'-' + b'f' * 20, b'5;' + b'a' * 50, b'5 5', b'\xff', b'100000', b'fffff', b'0000000000fffff', b'\t-1', b' -1 ', b'-1;x']
        cls = [b'-1', b'-5', b'+5', b'1_0', b'2147483648', b'4294967296', b'99999999999', b'9' * 30, b'1000000', b'x', b'', b' 5 ', b'0x10', b'1e9', b'-0']
        for k in range(ctx.scale(700, 8000)):
            framing = rng.choice(['chunked', 'chunked', 'cl'])
            buf = rng.choice([0, 1, 5, 64, 1000, 100 * 1024, AD.number(rng, 70000)])
            line = rng.choice(lines if framing == 'chunked' else cls)
            if rng.random() < .1:
                line = (b'%x' if framing == 'chunked' else b'%d') % AD.number(rng, 1 << 40)
            filler = rng.choice([0, 10, 300000, 300000, 1 << 20])
            limit = rng.choice([None, 0, 1, 10, 100, 1000, 5000, AD.number(rng, 20000)])
            if limit is None and buf < 1000:
                filler = min(filler, 5000)
            run_case(ctx, ('hostile', framing, rng.choice([0, 0, 1, 5]) if limit != 0 else 0, line, filler, limit, buf,
                           rng.choice([None, None, (1,), (3, 1), (5000,)]) if filler < 10000 or limit is not None else None,
                           rng.choice(['body', 'body', 'forms', 'json', 'files', 'POST', 'params'])))
        return
    if kind == 'large':
        # limits of a server that takes uploads: the limit is exact at every size
        for k in range(ctx.scale(10, 40)):
            limit = int(10 ** rng.uniform(5.3, 7.3)) if k > 1 else (70, 40)[k] << 20
            framing = ('cl', 'chunked')[k % 2]
            buf = rng.choice(['default', 'default', limit // 100, limit - 1, limit, limit + 1, 1 << 22])
            b = 100 * 1024 if buf == 'default' else buf
            for n in (limit, limit + 1) if k else (limit,):
                bk = rng.choice(['raw', 'raw', 'form', 'json', 'mp'])
                acc = 'body'
                spec = None
                if bk == 'mp':
                    spec = (('f', n - 300, True), ('a', 5, False))
                    limit = len(build('mp', 0, spec)[0]) - (n > limit)
                    acc = rng.choice(['body', 'files', 'POST'])
                elif bk != 'raw':
                    acc = rng.choice(['body', {'form': 'forms', 'json': 'json'}[bk], 'POST'])
                ctx.obs['large_limits'] += 1
                run_case(ctx, (bk, n, spec, limit, buf, framing, rng.choice([(1 << 16,), (n,), (1 << 20, 4097)]), 0, rng.choice([None, (1 << 16,)]), acc,
                               rng.choice(['handler', 'hook', 'generator']), None, rng.choice(['init', 'setup']), False))
        return
    if kind == 'memory':
        big = 8 << 20
        todo = []
        for framing in ('cl', 'chunked'):
            for acc in ('body', 'forms', 'json'):
                todo.append(({'body': 'raw', 'forms': 'form', 'json': 'json'}[acc], big, None, acc, framing))
            todo.append(('raw', big, b'\r\n', 'body', framing))
            todo.append(('mp', 0, (('t', big, False),), 'forms', framing))
            todo.append(('mp', 0, tuple(('t', big // 16, False) for _ in range(16)), 'POST', framing))
            todo.append(('mp', 0, (('a', 5, False), ('f', big, True)), 'files', framing))
        for j, (bk, n, spec, acc, framing) in enumerate(todo):
            if j % ctx.scale(2, 4) != idx:
                continue
            for buf in ctx.scale((65536,), (1000, 65536, 100 * 1024)):
                if bk == 'mp' and buf < 60000 and acc != 'files':
                    continue
                run_case(ctx, (bk, n, spec, None, buf, framing, (1 << 20, 4097), 0, None, acc, 'handler', None, 'init', True))
        return
    for _ in range(ctx.scale(700, 4000)):
        big = rng.random() < .05
        buf = rng.choice([0, 1, 2, 5, 64, 100, 1000, 'default'] if not big else [1000, 4096, 65536, 'default'])
        b = 100 * 1024 if buf == 'default' else buf
        limit = rng.choice(['default', None, 0, 1, 10, 100, b, b + 1, 2 * b, 1000, rng.randrange(3000)])
        if rng.random() < .15:
            # numbers the code itself mentions
            top = 20000 if rng.random() < .9 else 1 << 21
            if rng.random() < .6:
                buf = AD.number(rng, top)
                b = buf
            if rng.random() < .6:
                limit = AD.number(rng, top)
        lim = None if limit in (None, 'default') else limit
        at = [0, 1, b, b + 1, max(0, b - 1), 2 * b, 3 * b + 1, b + rng.randrange(50)]
        if lim is not None:
            at += [lim, lim + 1, max(0, lim - 1), lim + b, lim + b + 1, lim + 2 * b + 2, 4 * lim, lim] * 2
        n = rng.choice(at) if rng.random() < .93 else AD.number(rng, 20000 if rng.random() < .8 else 1 << 21)
        if n > 3000 and b < 10 and not big:
            n %= 3000
        bk = rng.choice(['raw', 'raw', 'form', 'form', 'json', 'mp', 'mp', 'mp'])
        spec = None
        if bk == 'mp':
            # sizes around the budget: '%d' header bytes per part are about 47
            cnt = rng.randrange(0, 5) if rng.random() < .95 else AD.number(rng, 300)
            spec = []
            for i in range(cnt):
                f = rng.random() < .35
                spec.append(('n%d' % rng.randrange(3), rng.choice([0, 1, 10, b // max(cnt, 1), b // 2, b, b + 1, rng.randrange(200)]) if not f
                             else rng.choice([0, 5, b, 3 * b, 500]), f))
            if spec and rng.random() < .5:
                # make text + headers (or text alone) meet the threshold exactly
                _, _, _, text, hdr = build('mp', 0, tuple(spec))
                goal = b + rng.choice([0, 0, 0, 1, 1, -1]) - (hdr if rng.random() < .6 else 0)
                for i, (nm, sz, f) in enumerate(spec):
                    if not f and sz + goal - text >= 0:
                        spec[i] = (nm, sz + goal - text, f)
                        break
            spec = tuple(spec)
            if rng.random() < .6:
                n = len(build('mp', 0, spec)[0])
                lim = limit = rng.choice([None, n, n - 1, n + 1, n, None])
        elif bk == 'form':
            spec = rng.choice([None, 'many'])
        elif bk == 'raw':
            spec = rng.choice([None, b'a=1&', b'\r\n', b'{"a":'])
        framing = rng.choice(['cl', 'chunked'])
        sizes = tuple(rng.choice([1, 2, 3, max(1, b), b + 1, n or 1, max(1, n // 2), 17, AD.number(rng, max(n, 20), 1)]) for _ in range(rng.randrange(1, 4)))
        if n > 5000:
            sizes = tuple(max(s, n // 500) for s in sizes)
        script = None if rng.random() < .5 or n > 20000 else tuple(rng.randrange(1, 50) for _ in range(rng.randrange(1, 4)))
        access = rng.choice({'raw': ['body', 'body', 'copy', 'input', 'forms'], 'form': ['forms', 'POST', 'params', 'body', 'files'],
                             'json': ['json', 'forms', 'POST', 'body', 'params'], 'mp': ['forms', 'POST', 'files', 'params', 'body', 'POST']}[bk])
        if bk == 'mp' and access in ('params', 'forms') and any(f for _, _, f in spec):
            access = 'POST'
        if bk == 'json' and n < 2:
            n = 2
        if bk == 'raw' and spec == b'{"a":' and access == 'forms':
            access = 'body'
        again = rng.choice([None, None, True]) if access in ('body', 'copy', 'input') else rng.choice([None, None, True, 'body'])
        run_case(ctx, (bk, n, spec, limit, buf, framing, sizes, rng.randrange(4), script, access, rng.choice(['handler', 'hook', 'generator']), again,
                       rng.choice(['init', 'init', 'setup']), False))
