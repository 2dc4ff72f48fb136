"""C07: multipart forms and uploads round-trip exactly."""
import io
import os
import random
import re

from vlib import autodict as AD
from vlib import core
from vlib import multipart as M
from vlib import wsgi as W

W.NOISE = True
W.AMBIENT = 'body'
PID = 'C07'
LEVEL = 'exploration'
RULE = ('a case is (boundary, list of fields and uploads with header style, framing, read fragmentation, memory threshold, order in which '
        'the handler looks); non-trivial with at least one part. What the handler sees is compared with what was encoded')
REQUIRED = ('text_fields', 'uploads', 'empty_filenames', 'repeated_names', 'mixed_kind_names', 'separators_in_names', 'non_ascii_names',
            'lookalike_content', 'above_threshold', 'chunked', 'interleaved_reads', 'saved', 'quoted_boundary', 'content_types', 'empty_parts', 'big_uploads', 'large_uploads')
ASSUMPTIONS = ['field and file names are sent as raw UTF-8 in quoted strings without escapes (as browsers and HTTP clients do)',
               'line breaks excluded from names include the Unicode line separators',
               'headers plus text fit the memory threshold (see C13 for what does not)']

NAMES = ['a', 'b', 'a', 'file', 'name', 'filename', 'self', 'x;y', 'x=y', ' sp ace ', 'é', '日本', 'a;filename=z', "it's", 'back\\slash',
         'end\\', '%22', 'a&b', 'tab\there', '', ';', '=', '; name=q', 'ünï;=cödé', '😀', 'A', '\x7f', 'a[]', 'form-data', 'a,b', 'name=', 'n:m', '-', '--b']
FILENAMES = ['f.txt', 'a b.bin', 'x;y.png', 'k=v', 'été.jpg', '日本.pdf', 'C:\\dir\\f.doc', '../../etc/passwd', '', ' ', 'a;name=other',
             "q'uote", 'f' * 300, '.hidden', 'end\\', '%41', '; filename=z', '😀.gif', '=', 'a&b', 'name="'[:5], 'f:g']
CTYPES = [None, 'text/plain', 'application/octet-stream', 'image/png', 'text/plain; charset=utf-8', 'text/html;charset="x;y"',
          'application/x-very.long+suffix', 'multipart/mixed; boundary=zz', 'TEXT/PLAIN', 'a/b; c=d; e=f']
TEXTS = ['', 'v', 'hello world', 'é', '日本語 テキスト', 'line1\r\nline2', '\r\n', '\r', '\n', 'a=b&c=d', '"quoted"', '--', '\r\n--', ' lead', 'trail ',
         '\x00\x01', '😀', '\u2028', '\r\n\r\n', 'Content-Disposition: form-data; name="zz"\r\n\r\nevil']
EXTRA = ['X-Custom: 1', 'Content-Transfer-Encoding: binary', 'Content-Length: 7', 'x-a:b', 'X-Quote: "a;b"', 'X-E:']


NAMECHARS = re.compile('["\r\n\v\f\x1c\x1d\x1e\x85\u2028\u2029]')


def word_name(rng):
    w = NAMECHARS.sub('', AD.word(rng))
    return rng.choice([w, w, w + '[]', w + '; ' + w + '=1', 'x' + w, w * AD.number(rng, 40, 1)])[:6000]


def word_token(rng):
    return ''.join(c for c in AD.word(rng) if c.isascii() and (c.isalnum() or c in '-_.+')) or 'x'


def gen_case(rng, big):
    while True:
        boundary = rng.choice(M.BOUNDARIES)
        if rng.random() < .03:
            boundary = word_token(rng)[:70]
        parts = []
        pool = rng.sample(NAMES, rng.randrange(1, 5))
        if rng.random() < .15:
            pool.append(word_name(rng))
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6, 9]) if rng.random() < .985 else AD.number(rng, 150)):
            name = rng.choice(pool)
            if rng.random() < .25:
                name += rng.choice([';', '=', ' ', 'é', "'", 'x', ','])
            style = rng.randrange(4)
            extra = rng.sample(EXTRA, rng.choice([0, 0, 0, 1, 2]))
            if rng.random() < .04:
                w = word_token(rng)
                if w.lower() not in ('content-disposition', 'content-type'):
                    extra.append('%s: %s' % (w, NAMECHARS.sub('', AD.word(rng)) if rng.random() < .7 else 'h' * AD.number(rng, 3000)))
            if rng.random() < .5:
                data = rng.choice(TEXTS) + (rng.choice(TEXTS) if rng.random() < .3 else '')
                if rng.random() < .08:
                    data = rng.choice([AD.word(rng), AD.word(rng) + '=' + AD.word(rng), 't' * AD.number(rng, 9000)])
                if rng.random() < .25:
                    la = b''.join(rng.choice(M.lookalikes(boundary)) for _ in range(3))
                    data += la.decode('ascii', 'replace')
                parts.append(M.Part(name, data.encode(), None, rng.choice([None, None, None, 'text/plain', 'text/plain; charset=utf-8']), extra, style))
            else:
                k = rng.random()
                if k < .5:
                    data = b''.join(rng.choice(M.lookalikes(boundary)) for _ in range(rng.randrange(8)))
                elif k < .8 or not big:
                    data = rng.randbytes(rng.choice([0, 1, 10, 300]) if rng.random() < .9 else AD.number(rng, 9000))
                else:
                    unit = rng.choice([b'\r\n', b'-', b'\r', rng.randbytes(97), b'\r\n--' + boundary.encode()[:-1], rng.randbytes(5000)])
                    data = (unit * (400000 // len(unit)))[:rng.randrange(60000, 400000) if rng.random() < .7 else AD.number(rng, 400000)]
                parts.append(M.Part(name, data, rng.choice(FILENAMES) if rng.random() < .93 else word_name(rng) + rng.choice(['', '.txt', '.gz']),
                                    rng.choice(CTYPES) if rng.random() < .93 else rng.choice([word_token(rng) + '/' + word_token(rng), 'text/plain; %s=%s' % (word_token(rng), word_token(rng))]),
                                    extra, style))
        if M.usable(boundary, [p.data for p in parts] + [p.headers() for p in parts]):
            break
    need = sum(len(p.headers()) + (len(p.data) if p.filename is None else 0) for p in parts)
    total = sum(len(p.data) for p in parts) + need
    memfile = rng.choice([max(need, 1), need + 1, need + 20, total + 2000, 100 * 1024]) if total < 90000 else rng.choice([max(need, 2000), 100 * 1024])
    memfile = max(memfile, need, total // 300 + 1)
    script = rng.choice([None, None, (1,) if total < 5000 else (1000, 7), (2, 5) if total < 5000 else (3000,),
                         tuple(rng.randrange(1, max(2, total)) for _ in range(3))])
    token = re.fullmatch(r"[!#$%&'*+\-.^_`|~0-9A-Za-z]+", boundary)
    ct = 'multipart/form-data; boundary=%s' % boundary if token and rng.random() < .6 else 'multipart/form-data; boundary="%s"' % boundary
    ct = rng.choice([ct, ct, ct.replace('; ', ';', 1), ct + '; charset=utf-8', ct.replace('boundary', 'Boundary', 1),
                     ct.replace('form-data;', 'form-data; charset=UTF-8;'), ct.replace('multipart/form-data', 'Multipart/Form-Data')])
    return (boundary, tuple(p.key() for p in parts), rng.choice([b'', b'', b'\r\n']), rng.choice([b'\r\n', b'', b'\r\nepilogue']),
            rng.choice(['cl', 'cl', 'chunked']), script, memfile, ct, rng.choice(['forms', 'files', 'POST', 'params', 'body']),
            rng.choice(['read', 'read', 'pieces', 'interleave', 'save', 'twice', 'savefile', 'jump']))


def collect(items):
    out = {}
    for k, v in items:
        out.setdefault(k, []).append(v)
    return out


def aslist(ctx, d):
    """the observed dict, with its single/list shape"""
    return {k: (('list', tuple(v)) if isinstance(v, list) else ('one', (v,))) for k, v in d.items()}


def shape(d):
    return {k: ('one' if len(v) == 1 else 'list', tuple(v)) for k, v in d.items()}


def jump(ctx, f):
    """The content read after and between seeks to everywhere, beyond both ends too; a bytes object that tells what differs, if anything does."""
    f.seek(0)
    data = f.read()
    n = len(data)
    rng = random.Random(n * 7919 + sum(data[:50]))
    for k in range(12):
        how = rng.randrange(6)
        pos = f.tell()
        d = rng.choice([-n - 5, -40, -3, -1, 0, 1, 3, 40, n + 5])
        if how == 0:
            want = rng.randrange(n + 1)
            f.seek(want)
        elif how == 1:
            want = max(0, min(n, pos + d))
            try:
                f.seek(d, 1)
            except (ValueError, OSError):
                if pos + d >= 0:
                    raise
                want = pos       # refused, as a file would
        elif how == 2:
            want = n - rng.randrange(n + 1)
            f.seek(want - n, 2)
        elif how == 3:
            want = max(0, n + d) if d < 0 else n
            f.seek(d, 2) if n + d >= 0 or d > 0 else f.seek(0)
            want = 0 if n + d < 0 and d <= 0 else want
        elif how == 4:
            want = 0 if d < 0 else min(d, n)
            f.seek(max(d, 0))
        else:
            want = pos
        size = rng.choice([None, -1, 0, 1, 2, 7, n, n + 9])
        got = f.read() if size is None else f.read(size)
        exp = data[want:] if size is None or size < 0 else data[want:want + size]
        if got != exp:
            return data + b'<seek %d to %d of %d, read %r: got %r instead of %r>' % (how, want, n, size or 0, got[:200], exp[:200])
    ctx.obs['jumps'] += 1
    return data


def read_upload(ctx, how, ups, req):
    out = {}
    if how == 'interleave':
        bufs = {id(u): b'' for u in ups}
        live = list(ups)
        k = 1
        while live:
            for u in list(live):
                c = u.file.read(k)
                k = k % 5000 * 2 + 1
                bufs[id(u)] += c
                if not c:
                    live.remove(u)
            req.body.read(3)
        ctx.obs['interleaved_reads'] += len(ups) > 1
        return bufs
    for u in ups:
        if how == 'read' or how == 'twice':
            b = u.file.read()
            if how == 'twice':
                if u.file.read() != b'':
                    b += b'<not at end>'
                u.file.seek(0)
                b2 = u.file.read(len(b) + 10)
                if b2 != b:
                    b = b + b'<second read>' + b2
        elif how == 'jump':
            b = jump(ctx, u.file)
        elif how == 'pieces':
            b = b''
            while True:
                c = u.file.read(4096)
                if not c:
                    break
                b += c
        elif how == 'save':
            f = io.BytesIO()
            u.save(f, chunk_size=777)
            b = f.getvalue()
            ctx.obs['saved'] += 1
        else:
            fn = '/tmp/c07.%d.%d' % (os.getpid(), id(u))
            try:
                u.save(fn, overwrite=True)
                with open(fn, 'rb') as f:
                    b = f.read()
            finally:
                if os.path.exists(fn):
                    os.unlink(fn)
            ctx.obs['saved'] += 1
        out[id(u)] = b
    return out


def run_case(ctx, case):
    boundary, keys, lead, close, framing, script, memfile, ctype, first, how = case
    parts = [M.Part(k[0], W.expand(k[1]), *k[2:]) for k in keys]
    body, _ = M.encode(parts, boundary, lead, close)
    ctx.obs['above_threshold'] += len(body) > memfile
    app = W.fresh_app(dict(max_memfile_size=memfile))
    seen = {}

    def h():
        rq = app.request
        if first == 'body':
            rq.body.read(5)
        elif first == 'params':
            seen['params'] = aslist(ctx, rq.params)
        else:
            getattr(rq, first)
        seen['forms'] = aslist(ctx, rq.forms)
        ups = [u for v in rq.files.values() for u in (v if isinstance(v, list) else [v])]
        data = read_upload(ctx, how, ups, rq)

        def up(u):
            if isinstance(u, str):
                return u
            return (u.name, u.raw_filename, u.content_type or None, data.get(id(u)))
        seen['files'] = {k: (s, tuple(up(u) for u in v)) for k, (s, v) in aslist(ctx, rq.files).items()}
        seen['post'] = {k: (s, tuple(up(u) for u in v)) for k, (s, v) in aslist(ctx, rq.POST).items()}
        seen['all'] = [(u.name, u.get_header('X-Custom')) for u in ups]
        ctx.obs['spooled'] += W.spooled(rq.body)
        return 'ok'
    app.route('/u', W.BODY_METHODS, callback=h)
    if framing == 'chunked':
        n = max(1, len(body) // 4)
        wire = b''.join(b'%X\r\n%b\r\n' % (len(body[i:i + n]), body[i:i + n]) for i in range(0, len(body), n)) + b'0\r\n\r\n'
        env = W.environ('POST', '/u', stream=W.Input(wire, script), chunked=True, ctype=ctype)
        ctx.obs['chunked'] += 1
    else:
        env = W.environ('POST', '/u', stream=W.Input(body, script), cl=len(body), ctype=ctype)
    try:
        with core.watchdog(30):
            res = W.call(app, env)
    except core.Hang:
        ctx.violation('hang', 'posting the form did not finish in 30 s CPU', case)
        return
    ctx.seen(case, bool(parts), '%s/%s' % (framing, how))
    if res.code != 200:
        ctx.violation('refused', 'a well-formed form was refused: %s %s\nparts=%r' % (res.brief()[:300], W.errors_text(env)[-700:], keys[:6]), case)
        return

    def want_up(p):
        return (p.name, p.filename, p.ctype, p.data)
    forms = shape(collect((p.name, p.data.decode()) for p in parts if p.filename is None))
    files = shape(collect((p.name, want_up(p)) for p in parts if p.filename is not None))
    post = shape(collect((p.name, p.data.decode() if p.filename is None else want_up(p)) for p in parts))
    for what, want in (('forms', forms), ('files', files), ('post', post)) + ((('params', forms),) if 'params' in seen else ()):
        if seen[what] != want:
            diff = {k: (seen[what].get(k), want.get(k)) for k in set(want) | set(seen[what]) if seen[what].get(k) != want.get(k)}
            ctx.violation(what, 'request.%s differs (seen, sent): %.1500r' % (what, diff), case)
    for p in parts:
        if p.filename is None:
            ctx.obs['text_fields'] += 1
        else:
            ctx.obs['uploads'] += 1
            ctx.obs['empty_filenames'] += p.filename == ''
            ctx.obs['content_types'] += p.ctype is not None
            ctx.obs['big_uploads'] += len(p.data) > 60000
        ctx.obs['empty_parts'] += p.data == b''
        s = p.name + (p.filename or '')
        ctx.obs['separators_in_names'] += bool(set(s) & set(';='))
        ctx.obs['non_ascii_names'] += not s.isascii()
        ctx.obs['lookalike_content'] += b'\r\n--' in p.data or b'\r' in p.data
    ctx.obs['repeated_names'] += any(v[0] == 'list' for v in post.values())
    ctx.obs['mixed_kind_names'] += bool(set(forms) & set(files))
    ctx.obs['quoted_boundary'] += '="' in ctype


def shards(ctx):
    return list(range(ctx.scale(8, 16)))


def run_shard(ctx, shard):
    rng = ctx.rng
    for k in range(ctx.scale(1200, 9000)):
        run_case(ctx, gen_case(rng, rng.random() < .1))
    # many parts
    for n in [(70, 4200), (130, 3000), (260, 2100), (520, 1500), (1030, 900), (1030, 700), (2050, 600), (5000, 400)][shard % 8]:
        kind = rng.randrange(3)
        parts = [M.Part('p%d' % (i % (n if kind else 7)), b'%d' % i, 'f%d' % i if (i + kind) % 3 == 0 else None, None, (), i % 4) for i in range(n)]
        need = sum(len(p.headers()) + len(p.data) for p in parts)
        run_case(ctx, ('Xb', tuple(p.key() for p in parts), b'', b'\r\n', rng.choice(['cl', 'chunked']), None, need + 10,
                       'multipart/form-data; boundary=Xb', rng.choice(['forms', 'files', 'POST', 'params', 'body']), 'read'))
        ctx.obs['many_parts'] += 1
    # uploads of real-life size
    for k in range(ctx.scale(2, 12)):
        ns = [int(10 ** rng.uniform(4.5, 7.2)) for _ in range(rng.randrange(1, 4))]
        if k == 0:
            ns[0] = int(10 ** rng.uniform(6.9, 7.4))
        keys = []
        for i, n in enumerate(ns):
            keys.append(('f%d' % i, ('big', n), 'n%d' % i, None, (), i % 4))
            keys.append(('t%d' % i, b'%d' % n, None, None, (), i % 4))
        run_case(ctx, ('Xb', tuple(keys), b'', b'\r\n', rng.choice(['cl', 'chunked']), None, rng.choice([100 * 1024, sum(ns) // 200 + 600]), 'multipart/form-data; boundary=Xb',
                       rng.choice(['forms', 'files', 'POST', 'body']), rng.choice(['read', 'twice', 'pieces', 'save', 'savefile', 'jump'])))
        ctx.obs['large_uploads'] += 1
    # every name and file name alone, both styles
    for i, nm in enumerate(NAMES + FILENAMES):
        if i % 8 == shard % 8:
            for st in range(4):
                for parts in ([M.Part(nm, b'v', None, None, (), st)], [M.Part('u', b'\r\n-', nm, 'a/b', (), st)],
                              [M.Part(nm, b'1', nm, 'a/b; c="d"', (), st), M.Part(nm, b'2', None, None, (), st)]):
                    run_case(ctx, ('Xb', tuple(p.key() for p in parts), b'', b'\r\n', 'cl', None, 10000,
                                   'multipart/form-data; boundary=Xb', 'forms', 'read'))
