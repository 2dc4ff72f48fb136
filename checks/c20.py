"""C20: request-controlled text appears in framework error pages in escaped form only; JSON error bodies are valid JSON."""
import html
import html.parser
import json
import re

from vlib import autodict as AD
from vlib import core
from vlib import wsgi as W

PID = 'C20'
LEVEL = 'exploration'
RULE = ('a case is an error kind (404, 405, 400 of several origins, 413, 416, 500 of several origins, critical page), an Accept header and hostile text in '
        'one or more request-controlled slots; non-trivial if the text holds at least one of <>"\'&')
KINDS = ('404', '404-partial', '405', '400-path', '400-chunked', '400-json', '400-multipart', '400-length', '413', '416', '403-file', '404-file', '500-handler', '500-generator',
         '500-before', '500-after', '500-type', '500-unmapped', 'abort', 'critical-handler', 'critical-header', 'critical-charset', 'critical-wrapper', 'explicit', 'loop', 'json-body')
REQUIRED = tuple('kind_' + k for k in KINDS) + ('html_pages', 'json_pages', 'markers_escaped', 'structures_compared', 'critical_pages', 'critical_json', 'reflected_path', 'reflected_query', 'reflected_host')
ASSUMPTIONS = ['text an application itself puts into an error (HTTPError body, status line) is not request text of the framework',
               'JSON is requested by an Accept header that starts with application/json',
               'custom error handlers answer with their own text; only their failure leads to a framework page']

# unique words around each special character: any special character that is still raw is recognised by the word behind it
SPECIAL = '<>"\'&'

SELS = 'bndstueoklcqrwxyzQDHB'


def payload(tag):
    return 'zq%s0' % tag + ''.join('%szq%s%d' % (c, tag, i + 1) for i, c in enumerate(SPECIAL)) + '/><script>alert(1)</script>'


class Skeleton(html.parser.HTMLParser):
    """The tags, attributes, comments, declarations of a page without its text."""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.out, self.text = [], []

    def handle_starttag(self, tag, attrs):
        self.out.append(('<', tag, tuple(a for a, _ in attrs)))

    def handle_startendtag(self, tag, attrs):
        self.out.append(('</>', tag, tuple(a for a, _ in attrs)))

    def handle_endtag(self, tag):
        self.out.append(('>', tag))

    def handle_comment(self, data):
        self.out.append(('!--',))

    def handle_decl(self, decl):
        self.out.append(('!', decl))

    def handle_pi(self, data):
        self.out.append(('?',))

    def unknown_decl(self, data):
        self.out.append(('![',))

    def handle_data(self, data):
        self.text.append(data)


def part(tag, chars):
    return 'zq%s0' % tag + ''.join('%szq%s%d' % (c, tag, SPECIAL.index(c) + 1) for c in chars)


def skeleton(page):
    p = Skeleton()
    p.feed(page)
    p.close()
    return p.out, ''.join(p.text)


def scan(page, tags):
    """Raw special characters of any payload in the page -> list of offending snippets."""
    bad = []
    for m in re.finditer('(zq[a-z]+)([0-9])', page):
        i = int(m.group(2))
        if not i or m.group(1)[2:] not in tags:
            continue
        c = SPECIAL[i - 1]
        if page[m.start() - 1] == c:
            bad.append(page[max(0, m.start() - 40):m.end() + 20])
    for m in re.finditer(r'<script', page, re.I):
        bad.append(page[max(0, m.start() - 40):m.end() + 20])
    return bad


def make_app(kind, config):
    import ombott
    conf = dict(debug=False)
    if config:
        conf.update(config)
        if 'domain_map' in conf:
            conf['domain_map'] = lambda host: host
    if kind == '413':
        conf['max_body_size'] = 5
    if kind == '500-unmapped':
        conf['errors_map'] = {}
    app = W.fresh_app(conf)

    def reading():
        r = app.request
        r.body, r.forms, r.files, r.json
        return 'ok'
    if kind == '405':
        app.route('/<p:path>', 'BREW', lambda p: 'x')
    elif kind == '404-partial':
        def ph(route, params):
            raise ombott.HTTPError(404, 'nothing here')
        app.error(404, '/')(ph)
    elif kind in ('400-chunked', '400-json', '400-multipart', '400-length', '413', '500-unmapped'):
        app.route('/<p:path>', 'ANY', lambda p: reading())
        app.route('/', 'ANY', reading)
    elif kind == '416':
        app.route('/<p:path>', 'ANY', lambda p: ombott.static_file('c20.py', core.VERIF + '/checks'))
    elif kind == '403-file':
        app.route('/<p:path>', 'ANY', lambda p: ombott.static_file('../' + p, core.VERIF + '/checks'))
    elif kind == '404-file':
        app.route('/<p:path>', 'ANY', lambda p: ombott.static_file('nonexistent/' + p, core.VERIF + '/checks'))
    elif kind == '500-handler':
        def h(p=''):
            raise KeyError(p, app.request.query_string, app.request.headers.get('Host'), 'zqsrc0<zqsrc1>zqsrc2"zqsrc3\'zqsrc4&zqsrc5')
        app.route('/<p:path>', 'ANY', h)
    elif kind == '500-generator':
        def g(p):
            raise KeyError(p, app.request.query_string)
            yield
        app.route('/<p:path>', 'ANY', g)
    elif kind in ('500-before', '500-after'):
        def hook():
            raise ValueError(app.request.path, app.request.query_string)
        app.on('before_request' if kind == '500-before' else 'after_request', hook)
        app.route('/<p:path>', 'ANY', lambda p: 'x')
    elif kind == '500-type':
        app.route('/<p:path>', 'ANY', lambda p: [{'text': p}])
    elif kind == 'abort':
        app.route('/<p:path>', 'ANY', lambda p: ombott.abort(418, 'a teapot'))
    elif kind == 'explicit':
        @app.error(404)
        def eh(e):
            return app.default_error_handler(e)
    elif kind == 'loop':
        app.error(404)(lambda e: e)
    elif kind == 'json-body':
        bodies = {'b': b'bytes \xff', 'n': float('nan'), 'd': {'a': float('inf')}, 's': {1, 2}, 't': {'x': (1, 'y')}, 'u': '\u2028\ud800', 'e': None, 'o': ValueError('x'), 'k': {(1, 2): 3},
                  'l': [1, 'zqsrc0'], 'c': object, 'q': 'quo"te', 'r': 'back\\slash \\u00e9 \\"', 'w': 'lines\r\nof\ttext\x00\x1f\x7f\x85\u2029', 'x': '', 'y': True, 'z': -0.5, 'Q': b'quo"te\\\n',
                  'D': {'a"b': ['\n', {'\\': '"'}]}, 'H': 'x' * 70000 + '"', 'B': bytearray(b'ba"\xff')}

        def jb(p):
            raise ombott.HTTPError(400, bodies[app.request.query.get('sel', 'b')])
        app.route('/<p:path>', 'ANY', jb)
    elif kind == 'critical-handler':
        @app.error(404)
        def eh(e):
            raise RuntimeError(app.request.path, app.request.query_string)
    elif kind == 'critical-header':
        def hh(p):
            app.response.headers.dict['X'] = 5
            return 'x'
        app.route('/<p:path>', 'ANY', hh)
    elif kind == 'critical-charset':
        def hc(p):
            app.response.content_type = 'text/html; charset=nope'
            return 'x' + p
        app.route('/<p:path>', 'ANY', hc)
    elif kind == 'critical-wrapper':
        class F:
            def read(self, n=-1):
                return b''
        app.route('/<p:path>', 'ANY', lambda p: F())
    return app


def make_env(kind, slots, accept, method, sel=None):
    path = '/' + slots.get('path', 'plain')
    qs = slots.get('query', '')
    kw = {}
    if kind == 'json-body':
        qs = 'sel=%s&' % sel + qs
    headers = {}
    body = None
    ctype = None
    chunked = False
    if kind == '400-chunked':
        body, chunked = b'5\r\nab' + slots.get('body', '').encode(), True
        body = b'zz' + body
    elif kind == '400-json':
        body, ctype = ('{"a": ' + slots.get('body', '')).encode(), 'application/json'
    elif kind == '400-multipart':
        b = slots.get('body', '')
        body = ('--b\r\nContent-Disposition: form-data; %s\r\n\r\nx\r\n--b--\r\n' % b.replace('name', '')).encode()
        ctype = 'multipart/form-data; boundary=b'
    elif kind == '413':
        body, ctype = b'0123456789' + slots.get('body', '').encode(), 'text/plain'
    elif kind == '500-unmapped':
        body, ctype = ('{"a": ' + slots.get('body', '')).encode(), 'application/json'
    elif slots.get('body'):
        body = slots['body'].encode()
    env = W.environ(method, path, qs=qs, body=body, ctype=ctype, chunked=chunked)
    if kind == '400-length':
        env['CONTENT_LENGTH'] = 'x' + slots.get('body', '')
    if kind == '400-path':
        env['PATH_INFO'] = env['PATH_INFO'] + '\xff\xfe<b>'
    if kind == '416':
        env['HTTP_RANGE'] = 'bytes=99999999-'
    if kind == 'critical-wrapper':
        class FW:
            def __init__(self, f, *a):
                raise RuntimeError('file wrapper for ' + path)
        env['wsgi.file_wrapper'] = FW
    env['QUERY_STRING'] = env['QUERY_STRING'].encode('utf8', 'surrogatepass').decode('latin1')
    for slot, key in (('host', 'HTTP_HOST'), ('xhost', 'HTTP_X_FORWARDED_HOST'), ('proto', 'HTTP_X_FORWARDED_PROTO'), ('script', 'SCRIPT_NAME'), ('xscript', 'HTTP_X_SCRIPT_NAME'),
                      ('cookie', 'HTTP_COOKIE'), ('referer', 'HTTP_REFERER'), ('agent', 'HTTP_USER_AGENT'), ('xreq', 'HTTP_X_REQUESTED_WITH'), ('range', 'HTTP_RANGE'), ('user', 'REMOTE_USER'),
                      ('server', 'SERVER_NAME'), ('method', 'REQUEST_METHOD'), ('ims', 'HTTP_IF_MODIFIED_SINCE'), ('port', 'SERVER_PORT'), ('app', 'HTTP_X_APP')):
        if slot in slots and not (slot == 'range' and kind == '416'):
            env[key] = slots[slot].encode('utf8', 'surrogatepass').decode('latin1')
    for slot in slots:
        if slot.startswith('env:'):
            env[slot[4:]] = slots[slot].encode('utf8', 'surrogatepass').decode('latin1')
    if 'server' in slots:
        env.pop('HTTP_HOST', None) if 'host' not in slots else None
    if accept is not None:
        env['HTTP_ACCEPT'] = accept
    return env


EXPECT = {'404': 404, '404-partial': 404, '405': 405, '400-path': 400, '400-chunked': 400, '400-json': 400, '400-multipart': 400, '400-length': 400, '413': 413, '416': 416,
          '403-file': 403, '404-file': 404, 'abort': 418, 'explicit': 404, 'json-body': 400}


def parse_json(text):
    def bad(c):
        raise ValueError('constant ' + c)
    return json.loads(text, parse_constant=bad)


def run_case(ctx, case):
    kind, slots, accept, method, config, sel = case
    slots = dict(slots)
    config = dict(config)
    app = make_app(kind, config)
    env = make_env(kind, slots, accept, method, sel)
    path_info = env['PATH_INFO']
    res = W.call(app, env)
    tags = {m for v in slots.values() for m in re.findall('zq([a-z]+)0', v)} | {'src'}
    ctx.seen(case, any(c in v for v in slots.values() for c in SPECIAL), kind)
    info = '%r -> %s\n%s' % (case, res.brief()[:300], res.body[:1500].decode('utf8', 'replace'))
    if res.code is None or res.problems or res.iter_exc:
        ctx.violation('malformed', '; '.join(res.problems) + repr(res.iter_exc) + info, case)
        return
    want = EXPECT.get(kind, 500)
    if res.code != want:
        if res.code < 400 and (kind in ('400-multipart',) or kind == '413' or 'method' in slots or method in ('HEAD', 'OPTIONS')):
            return
        ctx.obs['other_status'] += 1
        if res.code < 400:
            ctx.violation('no-error', 'expected %d %s' % (want, info), case)
            return
    ctx.obs['kind_' + kind] += 1
    if method == 'HEAD' or env['REQUEST_METHOD'].upper() == 'HEAD':
        return
    try:
        page = res.body.decode('utf8')
    except UnicodeError as e:
        ctx.violation('not-utf8', '%r %s' % (e, info), case)
        return
    critical = kind.startswith('critical')
    if critical:
        ctx.obs['critical_pages'] += 1
    ct = res.header('Content-Type', '')
    if accept is not None and accept.startswith('application/json'):
        ctx.obs['json_pages'] += 1
        if critical:
            ctx.obs['critical_json'] += 1
        try:
            parse_json(page)
        except ValueError as e:
            ctx.violation('invalid-json/' + kind, '%r %s' % (e, info), case)
            return
        if not ct.lower().startswith('application/json'):
            ctx.violation('json-type/' + kind, '%r %s' % (ct, info), case)
        texts = []

        def walk(o):
            if isinstance(o, str):
                texts.append(o)
            elif isinstance(o, dict):
                for k, v in o.items():
                    walk(k), walk(v)
            elif isinstance(o, list):
                for v in o:
                    walk(v)
        walk(parse_json(page))
        bad = scan(page, tags) + [b for t in texts for b in scan(t, tags)]
        if bad:
            ctx.violation('unescaped-in-json/' + kind, '%r %s' % (bad[:3], info), case)
        return
    ctx.obs['html_pages'] += 1
    if not ct.lower().startswith('text/html') or 'charset=utf-8' not in ct.lower():
        ctx.violation('html-type/' + kind, '%r %s' % (ct, info), case)
    bad = scan(page, tags)
    if bad:
        ctx.violation('unescaped/' + kind, '%r %s' % (bad[:3], info), case)
    if 'zq' in page:
        ctx.obs['markers_escaped'] += 1
    for slot in ('path', 'query', 'host'):
        if slot in slots and re.search('zq[a-z]+0', slots[slot]) and re.search('zq[a-z]+0', slots[slot]).group() in page:
            ctx.obs['reflected_' + slot] += 1
    if any(x.startswith('env:') for x in slots):
        return
    # the same request with harmless text must give the same markup
    key = (kind, method, tuple(sorted(config.items(), key=repr)), sel, res.code)
    ref = ctx.__dict__.setdefault('c20_ref', {}).get(key)
    if ref is None:
        r = W.call(make_app(kind, config), make_env(kind, {k: {'proto': 'https', 'method': 'GET', 'port': '81'}.get(k, 'harmless') for k in slots if k != 'method'}, accept, method, sel))
        if r.code != res.code:
            return
        ref = ctx.c20_ref[key] = skeleton(r.body.decode('utf8'))[0]
    ctx.obs['structures_compared'] += 1
    got = skeleton(page)[0]
    if got != ref:
        ctx.violation('markup/' + kind, '%r instead of %r %s' % (got, ref, info), case)


HOSTILE = ['<b>', '</tt><img src=x onerror=alert(1)>', '"><svg/onload=x>', "'><i>", '&lt;script&gt;', '&#60;b&#62;', '<!-- x', '-->', '{e.body}', '{url}', '{e.__class__}', '{', '}', '{{}}', '%(x)s', '%s', '%3Cb%3E', '%',
           '\\', '\\x3cb\\x3e', '\r\n<b>', '\n', '\t', '\x00', '\x7f', '\xe9', '\u65e5', '\U0001f600', '\u2028', '<\u65e5>', '<scr\x00ipt>', '<SCRIPT>', '<ScRipt >', '\uff1cscript\uff1e', '+ADw-script+AD4-', '//', '/../', ';',
           '?', '#<b>', 'http://[', '[', ']', '@', ':', '::', 'a:b@c<d>', '<?php', '<![CDATA[', ']]>', '&', '&&', "'", '"', '`', '</pre></body></html>', '</title><b>', 'javascript:alert(1)', '\xff\xfe', ' ', '$1', '\x1b[1m', '\ufeff<b>']
SLOTS = ['path', 'query', 'host', 'xhost', 'proto', 'script', 'xscript', 'body', 'cookie', 'referer', 'agent', 'xreq', 'range', 'user', 'server', 'ims', 'port', 'method', 'app']
ACCEPTS = [None, None, None, 'text/html', '*/*', 'application/json', 'application/json', 'application/json, */*', 'application/json;q=0.9', 'text/html,<b>', 'x<b>']


def rnd_text(rng, tag):
    r = rng.random()
    if r < .3:
        return payload(tag)
    if r < .45:
        # some of the special characters only
        return part(tag, rng.sample(SPECIAL, rng.choice([1, 1, 2, 3])))
    if r < .7:
        return rng.choice(HOSTILE) + payload(tag) + rng.choice(HOSTILE)
    if r < .9:
        return ''.join(rng.choice(HOSTILE) for _ in range(rng.randrange(1, 5)))
    if r < .95:
        # words of the code around the marker
        w = AD.word(rng)
        return rng.choice([w + payload(tag), payload(tag) + w, w + '=' + payload(tag), payload(tag) + '=' + w, w + '=1&' + payload(tag), w + '/' + payload(tag), payload(tag) + '/' + w,
                           w + '; ' + payload(tag), w + ', ' + payload(tag)])
    if r < .97:
        return 'x' * AD.number(rng, 5000) + payload(tag)
    return payload(tag) * rng.choice([2, 30])


def shards(ctx):
    return [('enum', i) for i in range(2)] + [('rand', i) for i in range(ctx.scale(6, 22))]


CONFIGS = ((), (), (('allow_x_script_name', True),), (('app_name_header', 'HTTP_X_APP'),), (('domain_map', 'host'), ('app_name_header', 'HTTP_X_APP')))
TAGS = {s: s for s in SLOTS}


def run_shard(ctx, shard):
    kind, idx = shard
    rng = ctx.rng
    if kind == 'enum':
        n = 0
        for k in KINDS:
            for slot in SLOTS:
                for acc in (None, 'application/json'):
                    for text in [payload(slot), payload(slot) * 2] + [part(slot, c) for c in SPECIAL] + HOSTILE:
                        n += 1
                        if n % 2 == idx:
                            if slot == 'method' and k in ('405',) or slot == 'body' and k == '400-multipart' and 'name' in text:
                                pass
                            run_case(ctx, (k, ((slot, text),), acc, 'POST' if k.startswith('4') else 'GET', (), SELS[n // 2 % len(SELS)] if k == 'json-body' else None))
        return
    for k in range(ctx.scale(5000, 50000)):
        kd = rng.choice(KINDS)
        slots = tuple((s, rnd_text(rng, s)) for s in rng.sample(SLOTS, rng.choice([1, 2, 3, 6])))
        for w, v in AD.env_extra(rng, .3).items():
            if not any(w == x for x in ('HTTP_ACCEPT', 'HTTP_HOST', 'HTTP_TRANSFER_ENCODING')):
                slots += (('env:' + w, v if rng.random() < .4 else rnd_text(rng, 'env')),)
        run_case(ctx, (kd, slots, rng.choice(ACCEPTS), rng.choice(['GET', 'POST', 'POST', 'PUT', 'HEAD']), rng.choice(CONFIGS), rng.choice(SELS) if kd == 'json-body' else None))
