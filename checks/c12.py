"""C12: malformed bodies yield client errors, never server faults; delivered fields are complete parts."""
import json

from vlib import autodict as AD
from vlib import core
from vlib import multipart as M
from vlib import wsgi as W

W.NOISE = True
W.AMBIENT = 'body'
PID = 'C12'
LEVEL = 'exploration'
RULE = ('a case is (body bytes, content type, framing, read fragmentation, limits, what the handler reads and where); non-trivial when the '
        'body is not empty. Bodies are mutated well-formed ones (bytes deleted, inserted, replaced, spliced, cut), grammar fragments '
        'in random order, and random bytes')
REQUIRED = ('status_2xx', 'status_4xx', 'multipart_ok', 'multipart_4xx', 'json_ok', 'json_4xx', 'urlencoded_ok', 'chunked_4xx', 'delivered_fields',
            'delivered_from_malformed', 'caught_and_read_again', 'hook_readers', 'deep_json', 'too_large', 'truncated_multipart', 'truncated_chunked', 'crowds')
ASSUMPTIONS = ['"hang" is more than 20 s of CPU time for one request',
               'handler code reads only form, files, json, body and the uploads themselves; it does not interpret what it got']

CTYPES = ['multipart/form-data; boundary=%s', 'multipart/form-data; boundary="%s"', 'multipart/form-data;boundary=%s; charset=x', 'Multipart/Form-Data; BOUNDARY=%s',
          'multipart/mixed; boundary=%s']
OTHER = ['multipart/form-data', 'multipart/form-data; boundary=', 'multipart/form-data; boundary=""', 'multipart/form-data; boundary="', 'multipart/;boundary=b',
         'multipart/form-data; boundary="b', 'multipart/form-data; boundary=" "', 'multipart/form-data; xboundary=b', 'multipart/form-data; boundary=\xe9',
         'application/x-www-form-urlencoded', 'application/x-www-form-urlencoded; charset=utf-8', 'application/json', 'application/json; charset=utf-8',
         'APPLICATION/JSON', 'application/json-patch+json', 'application/jsonx', 'text/plain', '', ';', 'x', ' application/json', None, 'application/json;', '\xff/\xfe']
READS = ['forms', 'files', 'json', 'body', 'POST', 'params', 'uploads', 'query']

JSONS = [b'{}', b'[]', b'null', b'1', b'"x"', b'{"a": 1}', b'{"a": [1, {"b": null}]}', b'{"a": "\\ud800"}', b'NaN', b'-Infinity', b'{"a": NaN}', b'tru',
         b'{"a"', b'{"a":1,}', b"{'a':1}", b'\xef\xbb\xbf{}', '{"é": "日本"}'.encode(), '{"a": 1}'.encode('utf-16'), '{"a": 1}'.encode('utf-32-le'), b'\xff\xfe',
         b'{"a": \xff}', b'[' * 100000, b'{"a":' * 20000, b'[' * 900 + b']' * 900, b'9' * 5000, b'1e99999', b'-', b'{"a": 1}{"b": 2}', b'\0', b' ', b'\r\n',
         b'{"self": 1, "": 2}', b'{"a": 1, "a": 2}', b'"' + b'\\u0000' * 50 + b'"', b'[1' + b',1' * 2000, b'{"":{"":{"":[]}}}', b'\x00\x00', b'\x00{', b'{\x00', b'true', b'false', b'0']

HDRS = [b'Content-Disposition: form-data; name="a"', b'Content-Disposition: form-data; name="a"; filename="f"', b'Content-Disposition: form-data', b'Content-Disposition',
        b'Content-Disposition:', b'Content-Disposition: ;;;', b'Content-Disposition: form-data; name', b'Content-Disposition: form-data; name=', b'content-disposition: form-data; name=a',
        b'Content-Disposition: form-data; name="a', b'Content-Disposition: form-data; name=a"b"', b'Content-Disposition: form-data; =x; name=q', b': v', b'', b'X', b'Content-Type: text/plain',
        b'Content-Disposition: form-data; name="\xff"', b'Content-Disposition: form-data; name="\xc3\xa9"', b'Content-Disposition: form-data; filename="f"', b'Content-Type:', b'Content-Type',
        b'Content-Disposition: form-data; name="a"; filename=', b'Content-Disposition: form-data; name="a"; filename', b'\0', b'A: \n', b'\nA: b', b' folded', b'Content-Length: x', b'Content-Disposition: form-data; name="' + b'n' * 3000 + b'"',
        b'Content-Disposition: form-data; name="a"\nX: y', b'Content-Disposition: form-data; name="a"; name="b"', b'Content-Disposition:' + b';' * 500, b'Content-Disposition: "' * 40]

CHARSETS = [b'x-none', b'utf-16', b'zlib', b'hex', b'base64', b'idna', b'punycode', b'unicode_escape', b'rot13', b'ascii', b'', b'"', b'"utf-7"', b'utf-8', b'UTF8', b'undefined', b'\xff', b'\0', b'cp932', b'latin1',
            b'utf-8-sig', b'mbcs', b'quopri', b'uu', b'x' * 300, b'../x', b'utf-32', b'None', b'0']
HDRS += [b'Content-Type: text/plain; charset=' + c for c in CHARSETS]
HDRS += [b'Content-Type: ' + t for t in (b'multipart/mixed; boundary=q', b'multipart/mixed', b'multipart/form-data; boundary=bB', b'application/json', b'application/json; charset=utf-16', b'text/plain; charset', b';', b';;=;', b'=',
                                         b'a/b; c="d', b'"', b'text/plain; a=b; a=c', b'application/octet-stream; ' + b'p=q; ' * 200)]
HDRS += [b'Content-Transfer-Encoding: ' + t for t in (b'base64', b'quoted-printable', b'x-none', b'gzip', b'7bit', b'binary', b'uuencode', b'')]
HDRS += [b'Content-Encoding: ' + t for t in (b'gzip', b'deflate', b'x-none')] + [b'Content-Length: ' + t for t in (b'-1', b'0', b'3', b'99999999999999999999', b'1e3', b'\xd9\xa1')] + [b'Content-Range: bytes 0-1/2', b'Transfer-Encoding: chunked']
HDRS += [b'Content-Disposition: form-data; name="a"; filename*=' + t for t in (b"UTF-8''%e2%82%ac", b"x-none''%ff", b"UTF-8''%ff", b"''", b"'", b'', b'"', b"utf-16''%00")]
HDRS += [b'Content-Disposition: ' + t for t in (b"form-data; name*=UTF-8''%ff", b"form-data; name*0=a; name*1=b", b'attachment; name="a"', b'FORM-DATA; NAME="a"', b'form-data; name="=?utf-8?b?/w==?="', b'form-data; name="=?x-none?q?=ff?="',
                                                b'form-data; name="a"; filename="C:\\x\\"', b'form-data; name="a\\"', b'form-data; name="\\"', b'form-data; name="a"; size=x', b'form-data; name="%ff"', b'form-data; name="_charset_"',
                                                b'form-data; name="a"; filename="/"', b'form-data; name="a"; filename="."', b'form-data; name="a"; filename="\0"', b'form-data;name="a";filename="' + b'f' * 400 + b'"')]
ODD_OPTIONS = [b'%s', b'%s=', b'%s="', b'%s=""', b"%s=''", b"%s=UTF-8''%%ff", b'%s=%%', b'%s==', b'%s; %s', b'%s=1; %s=2', b'"%s"', b'%s*', b'%s*=x', b'=%s', b'%s=\\', b'%s=0', b'%s=-1', b'%s=x y']


def odd_header(rng):
    w = (AD.word(rng) if rng.random() < .6 else rng.choice(['name', 'name*', 'filename', 'filename*', 'charset', 'boundary', 'size', 'type', 'encoding', 'creation-date'])).encode('utf8')
    o = rng.choice(ODD_OPTIONS)
    o = o % ((w,) * (o.replace(b'%%', b'').count(b'%s')))
    return rng.choice([b'Content-Disposition: form-data; name="a"; ', b'Content-Disposition: form-data; name="a"; filename="f"; ', b'Content-Type: text/plain; ', b'Content-Disposition: ', b'Content-Type: ',
                       w + b': ', b'Content-Transfer-Encoding: ']) + o


VALUES = [b'value', b'\xff\x80\xfe', b'x-none', b'=?x-none?q?=ff?=', b'====', b'']


def reference_parts(body, boundary):
    """All (header bytes, data bytes) of parts that start at a delimiter line and end at a delimiter."""
    tok = b'\r\n--' + boundary
    b = b'\r\n' + body
    out = []
    i = b.find(tok)
    while i >= 0:
        s = i + len(tok)
        if b[s:s + 2] == b'\r\n':
            he = b.find(b'\r\n\r\n', s + 2)
            if he >= 0:
                nd = b.find(tok, he + 4)
                if nd >= 0:
                    out.append((b[s + 2:he], b[he + 4:nd]))
        i = b.find(tok, i + 1)
    return out


CROWDS = ('keys', 'values', 'parts', 'files', 'cut', 'items', 'members', 'strings', 'fields', 'headers', 'params')


def crowd(what, n):
    """bodies with n of something"""
    if what == 'keys':
        return b'&'.join(b'k%d=' % i for i in range(n))
    if what == 'values':
        return b'&'.join(b'k=%d' % i for i in range(n))
    if what == 'items':
        return b'[' + b','.join(b'%d' % i for i in range(n)) + b']'
    if what == 'members':
        return b'{' + b','.join(b'"%d":[]' % i for i in range(n)) + b'}'
    if what == 'strings':
        return b'{"a": "' + b'x' * n + b'"}'
    if what == 'headers':
        return b'--bB\r\n' + b''.join(b'X-%d: y\r\n' % i for i in range(n)) + b'Content-Disposition: form-data; name="a"\r\n\r\nv\r\n--bB--\r\n'
    if what == 'params':
        return b'--bB\r\nContent-Disposition: form-data; name="a"' + b''.join(b'; p%d=%d' % (i, i) for i in range(n)) + b'\r\n\r\nv\r\n--bB--\r\n'
    head = b'--bB\r\nContent-Disposition: form-data; name="%s%d"%s\r\n\r\n%d\r\n'
    parts = [head % (b'a' if what != 'fields' else b'', i if what != 'fields' else i % 3, b'; filename="f"' if what in ('files', 'cut') and i % 7 else b'', i) for i in range(n)]
    return b''.join(parts) + (b'--bB--\r\n' if what != 'cut' else b'--bB\r\nContent-Disposition')


def run_case(ctx, case):
    body, ctype, boundary, framing, script, memfile, maxbody, reads, where, catch = case
    if isinstance(body, (tuple, list)):
        body = crowd(*body)
    app = W.fresh_app(dict(max_memfile_size=memfile, max_body_size=maxbody))
    fields = []
    again = [0]
    parsed = [False]

    def note(rq):
        parsed[0] = True
        for k, v in rq.forms.items():
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, str):
                    fields.append((k, x.encode('utf8', 'surrogatepass')))
        for k, v in rq.files.items():
            for u in (v if isinstance(v, list) else [v]):
                fields.append((k, u.file.read()))
                u.file.seek(0)
                u.filename, u.content_type, u.raw_filename

    def consume():
        rq = app.request
        err = None
        for r in reads:
            try:
                if r == 'body':
                    rq.body.read()
                elif r == 'uploads':
                    note(rq)
                elif r == 'forms' or r == 'files':
                    getattr(rq, r)
                    note(rq)
                else:
                    getattr(rq, r)
            except Exception as e:
                if not catch:
                    raise
                err = e
                again[0] += 1
        if err is not None:
            raise err
        return 'ok'

    if where == 'hook':
        app.add_hook('before_request', consume)
        app.route('/p', W.BODY_METHODS, callback=lambda: 'ok')
        ctx.obs['hook_readers'] += 1
    elif where == 'generator':
        def g():
            consume()
            yield 'ok'
        app.route('/p', W.BODY_METHODS, callback=g)
    else:
        app.route('/p', W.BODY_METHODS, callback=consume)
    if framing == 'cl':
        env = W.environ('POST', '/p', stream=W.Input(body, script), cl=len(body), ctype=ctype)
    elif framing == 'cl-short':
        env = W.environ('POST', '/p', stream=W.Input(body, script), cl=len(body) + 17, ctype=ctype)
    elif framing == 'raw-chunked':
        env = W.environ('POST', '/p', stream=W.Input(body, script), chunked=True, ctype=ctype)
    else:
        n = max(1, len(body) // 3)
        wire = b''.join(b'%x\r\n%b\r\n' % (len(body[i:i + n]), body[i:i + n]) for i in range(0, len(body), n))
        wire += b'0\r\n\r\n' if framing == 'chunked' else b''
        env = W.environ('POST', '/p', stream=W.Input(wire, script), chunked=True, ctype=ctype)
    try:
        with core.watchdog(20):
            res = W.call(app, env)
    except core.Hang:
        ctx.violation('hang', 'no answer after 20 s of CPU time: ctype=%r body=%r' % (ctype, body[:200]), case)
        return
    kind = ('multipart' if ctype and ctype.lower().startswith('multipart/') else
            'json' if ctype and ctype.lower().strip().startswith('application/json') else 'urlencoded')
    ctx.seen(case, bool(body), '%s/%s' % (kind, framing))
    code = res.code
    errs = W.errors_text(env)
    if res.escaped is not None or code is None or not (200 <= code < 300 or 400 <= code < 500) or res.iter_exc:
        what = errs.strip().splitlines()[-1].split(':')[0] if errs.strip() else repr(res.escaped)
        ctx.violation('fault/%s/%s' % (kind, what[:60]), 'ctype=%r framing=%s reads=%r where=%s: %s\n%s\nbody=%r' % (
            ctype, framing, reads, where, res.brief()[:200], errs[-900:], body[:300]), case)
        return
    if errs:
        ctx.violation('traceback/%s' % kind, 'client error but a traceback on wsgi.errors: %s' % errs[-600:], case)
    ctx.obs['status_%dxx' % (code // 100)] += 1
    ctx.obs['caught_and_read_again'] += again[0] > 1
    if code == 413:
        ctx.obs['too_large'] += 1
    if parsed[0] or 'json' in reads:
        ctx.obs['%s_%s' % (kind, 'ok' if code < 300 else '4xx')] += 1
    if 'chunked' in framing and code >= 400:
        ctx.obs['chunked_4xx'] += 1
    if kind == 'multipart' and boundary is not None and framing != 'raw-chunked' and fields:
        ref = reference_parts(body, boundary)
        datas = [d for _, d in ref]
        ctx.obs['delivered_fields'] += len(fields)
        ctx.obs['delivered_from_malformed'] += code >= 400 or not body.rstrip().endswith(b'--')
        for name, data in fields:
            if data not in datas:
                ctx.violation('truncated-field', 'field %r holds %r, which is not the complete data of any terminated part %.600r\nbody=%r' % (
                    name, data[:200], datas, body[:600]), case)
                break
            if not any(d == data and name.encode('utf8', 'surrogatepass') in h for h, d in ref):
                ctx.violation('field-of-other-part', 'field %r holds %r: no part with that name and data %.600r\nbody=%r' % (
                    name, data[:200], ref, body[:600]), case)
                break


def mp_body(rng, boundary):
    tok = boundary
    k = rng.random()
    if k < .6:
        parts = []
        for _ in range(rng.randrange(4)):
            parts.append(M.Part(rng.choice(['a', 'b', 'é']), b''.join(rng.choice(M.lookalikes(boundary.decode('latin1'))) for _ in range(rng.randrange(3))),
                                rng.choice([None, None, 'f', '']), rng.choice([None, 'text/plain']), (), rng.randrange(4)))
        body, _ = M.encode(parts, boundary.decode('latin1'), rng.choice([b'', b'', b'\r\n']), rng.choice([b'\r\n', b'']), rng.choice([b'', b'epi']))
        return body
    frag = [b'--' + tok, b'--' + tok + b'\r\n', b'\r\n--' + tok + b'\r\n', b'\r\n--' + tok + b'--', b'\r\n--' + tok, b'\r\n\r\n', b'\r\n', b'\r', b'\n', b'--', b'-',
            b'data', b'\xff', b'\r\n--' + tok + b'--\r\n', b'\r\n\r\nvalue']
    out = [b'--' + tok + b'\r\n'] if rng.random() < .8 else []
    for _ in range(rng.randrange(8)):
        out.append(rng.choice(frag) if rng.random() < .5 else b'\r\n'.join(rng.choice(HDRS) if rng.random() < .7 else odd_header(rng) for _ in range(rng.randrange(1, 4))) + rng.choice([b'\r\n\r\n', b'\r\n\r\n', b'\r\n', b'']))
    if rng.random() < .6:
        out.append(b'\r\n--' + tok + b'--\r\n')
    return b''.join(out)


def mutate(rng, b, tok):
    b = bytearray(b)
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        i = rng.randrange(len(b) + 1)
        k = rng.random()
        if k < .2 and i < len(b):
            del b[i]
        elif k < .4:
            b[i:i] = rng.choice([b'\r', b'\n', b'\r\n', b'-', b':', b';', b'"', b'=', b'\xff', b'\0', b'%', b'&', b'--' + tok, b'\r\n--' + tok + b'\r\n', b'\r\n\r\n'])
        elif k < .55 and i < len(b):
            b[i] = rng.randrange(256)
        elif k < .7:
            del b[i:]
        elif k < .85:
            j = rng.randrange(len(b) + 1)
            del b[min(i, j):max(i, j)]
        else:
            j = rng.randrange(len(b) + 1)
            b[i:i] = b[min(i, j):max(i, j)]
        if rng.random() < .06:
            i = rng.randrange(len(b) + 1)
            b[i:i] = AD.word(rng).encode('utf8') if rng.random() < .7 else (rng.choice([b'x', b'-', b'\r\n', b'0', b'[', b'&']) * AD.number(rng, 70000))
    return bytes(b[:200000])


def gen(rng):
    boundary = None
    k = rng.random()
    if k < .55:
        bd = rng.choice(M.BOUNDARIES + ['a:b', 'x.y'])
        ctype = rng.choice(CTYPES) % bd if bd.isalnum() or rng.random() < .2 else 'multipart/form-data; boundary="%s"' % bd
        boundary = bd.encode('latin1')
        body = mp_body(rng, boundary)
        if rng.random() < .6:
            body = mutate(rng, body, boundary)
        if '"' not in ctype and not bd.replace('-', 'a').isalnum():
            boundary = None       # unquoted special characters: no reference for what the boundary is
        if ':' in bd:
            boundary = None       # a boundary may look like a header name then
    elif k < .75:
        ctype = rng.choice(['application/json', 'application/json; charset=utf-8', 'APPLICATION/JSON', 'application/json;x'])
        body = rng.choice(JSONS)
        if rng.random() < .05:
            w = AD.word(rng)
            n = AD.number(rng, 70000)
            body = rng.choice([json.dumps({w: w}), json.dumps({w: {w: [w]}}), json.dumps([w] * min(n, 5000)), json.dumps({w: None}), '1' * n, '[' * n, '{"%s":' % 'k' * n, json.dumps({w: n})]).encode('utf8')[:100000]
        if rng.random() < .4 and len(body) < 2000:
            body = mutate(rng, body, b'b')
    elif k < .87:
        ctype = rng.choice(['application/x-www-form-urlencoded', None, 'text/plain', '', AD.word(rng), 'application/x-www-form-urlencoded; charset=' + AD.word(rng), rng.choice(['application/x-www-form-urlencoded', 'text/plain', 'application/json']) + '; charset=' + rng.choice(CHARSETS).decode('latin1')])
        body = b''.join(rng.choice([b'a', b'=', b'&', b'%', b'%4', b'%zz', b'+', b'%ff', b'%00', b'%C3%A9', b'\xff', b'\0', b';', b'a=b', b'&&', b'==', b'\r\n', b'%u1234', AD.word(rng).encode('utf8')])
                        for _ in range(rng.choice([0, 1, 3, 10, 40])))
        if rng.random() < .03:
            body = rng.choice([b'a&', b'a=b&', b'&', b'=', b'%', b'a']) * 40000
    else:
        ctype = rng.choice(OTHER) if rng.random() < .8 else rng.choice(['%s', 'application/json; %s', 'application/json; charset=%s', 'multipart/form-data; boundary=b; %s', 'multipart/%s; boundary=b', 'application/%s+json', 'text/%s']) % AD.word(rng)
        body = rng.choice([mp_body(rng, b'b'), rng.choice(JSONS), rng.randbytes(rng.randrange(60)), b''])
    framing = rng.choice(['cl', 'cl', 'cl', 'chunked', 'chunked-cut', 'raw-chunked', 'cl-short'])
    script = rng.choice([None, None, (1,) if len(body) < 5000 else (4000,), (3, 1) if len(body) < 5000 else None])
    memfile = rng.choice([100 * 1024] * 4 + [max(1, len(body) // 50), max(1, len(body) - 1), len(body) + 1])
    maxbody = rng.choice([None, None, None, len(body), max(0, len(body) - 1)])
    reads = tuple(rng.choice(READS) for _ in range(rng.randrange(1, 5)))
    return (body, ctype, boundary, framing, script, memfile, maxbody, reads, rng.choice(['handler'] * 4 + ['hook', 'generator']), rng.random() < .35)


def shards(ctx):
    return [('rand', i) for i in range(ctx.scale(8, 16))]


def run_shard(ctx, shard):
    rng = ctx.rng
    idx = shard[1]
    # every prefix of a form and every single-byte deletion
    bd = b'bB'
    base, _ = M.encode([M.Part('a', b'x\r\n-y'), M.Part('f', b'\r\n--b', 'n;m', 'text/plain'), M.Part('a', b'')], 'bB', b'', b'\r\n', b'')
    for p in range(len(base)):
        if p % 8 == idx % 8:
            for body in (base[:p], base[:p] + base[p + 1:], base[:p] + b'\r' + base[p:], base[:p] + b'-' + base[p:]):
                run_case(ctx, (body, 'multipart/form-data; boundary=bB', bd, 'cl', None, 100 * 1024, None, ('forms', 'files', 'body'), 'handler', p % 2 == 0))
            ctx.obs['truncated_multipart'] += 1
    # the same for the wire of a chunked body: cut at every place, and with bytes of other traffic after it
    for n, wire in enumerate((b'4;x=1\r\na=b&\r\n3\r\nc=d\r\n0;y\r\nX-Sum: 1\r\nY: z\r\n\r\n', b'7\r\na=b&c=d\r\n0\r\n\r\n', b'000\r\n\r\n')):
        for p in range(len(wire) + 1):
            if p % 8 == idx % 8:
                for body in (wire[:p], wire[:p] + b'\r', wire[:p] + b'\n', wire[:p] + b'\r\n', wire[:p] + wire[p + 1:], wire[:p] + b'GET / HTTP/1.1\r\nHost: x\r\n\r\n'):
                    for script in (None, (1,)):
                        run_case(ctx, (body, 'application/x-www-form-urlencoded', None, 'raw-chunked', script, 100 * 1024, None, ('forms', 'body'), 'handler', False))
                ctx.obs['truncated_chunked'] += 1
    for n, j in enumerate(JSONS):
        if n % 8 == idx % 8:
            for r in (('json',), ('forms', 'json'), ('params',)):
                run_case(ctx, (j, 'application/json', None, 'cl', None, 1 << 20, None, r, 'handler', False))
            ctx.obs['deep_json'] += len(j) > 50000
    for n, h in enumerate(HDRS):
        if n % 8 == idx % 8:
            for h2 in HDRS[:2] + [b'X: y']:
                for m, hh in enumerate((h, h + b'\r\n' + h2, h2 + b'\r\n' + h, h2 + b'\r\n' + h)):
                    body = b'--bB\r\n' + hh + b'\r\n\r\n' + (b'value' if m < 3 else VALUES[n // 8 % len(VALUES)]) + b'\r\n--bB\r\nContent-Disposition: form-data; name="z"\r\n\r\n2\r\n--bB--\r\n'
                    run_case(ctx, (body, 'multipart/form-data; boundary=bB', bd, 'cl', None, 100 * 1024, None, ('uploads',), 'handler', False))
    for _ in range(ctx.scale(250, 2000)):
        hh = [odd_header(rng), b'Content-Disposition: form-data; name="a"' + rng.choice([b'', b'', b'; filename="f"'])]
        rng.shuffle(hh)
        body = b'--bB\r\n' + b'\r\n'.join(hh) + b'\r\n\r\n' + rng.choice(VALUES) + b'\r\n--bB\r\nContent-Disposition: form-data; name="z"\r\n\r\n2\r\n--bB--\r\n'
        run_case(ctx, (body, 'multipart/form-data; boundary=bB', bd, 'cl', None, 100 * 1024, None, (rng.choice(['uploads', 'forms', 'files', 'POST']),), 'handler', False))
    # very many of a kind
    for k in range(ctx.scale(11, 66)):
        what = CROWDS[(idx * 11 + k) % len(CROWDS)]
        n = int(10 ** rng.uniform(2, 3.4)) if idx % 4 == 0 else int(10 ** rng.uniform(3.4, 4.2))
        size = len(crowd(what, n))
        ctype = 'application/json' if what in ('items', 'members', 'strings') else 'application/x-www-form-urlencoded' if what in ('keys', 'values') else 'multipart/form-data; boundary=bB'
        run_case(ctx, ((what, n), ctype, bd if what not in ('items', 'members', 'strings', 'keys', 'values') and n < 3000 else None, rng.choice(['cl', 'cl', 'cl', 'chunked', 'chunked', 'chunked-cut', 'cl-short']), None,
                       rng.choice([size + 10, size + 10, 100 * 1024, 1 << 24]), None, (rng.choice(['forms', 'POST', 'files', 'params', 'uploads']) if 'json' not in ctype or rng.random() < .3 else 'json',), 'handler', rng.random() < .3))
        ctx.obs['crowds'] += 1
    for _ in range(ctx.scale(5000, 40000)):
        run_case(ctx, gen(rng))
