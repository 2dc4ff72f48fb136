"""One application with handlers of every kind, and the requests for it: used by the history, concurrency and multi-application checks.

Every request carries a nonce (q0000000q) in each of its slots and every handler writes it wherever it can, so whatever of another request
shows up in a snapshot or a response is recognised and named. Handlers record what they see of request and response in environ['vx.log'].
"""
import functools
import io
import os
import random
import re
from urllib.parse import quote_plus

from vlib import autodict as AD
from vlib import core
from vlib import wsgi as W

NONCE_RE = re.compile(r'q[0-9]{7}q')
PLACE = 'q0000000q'
STATIC = core.VERIF + '/vlib'
SECRET = 'farm-secret'


def nonce(n):
    return 'q%07dq' % n


def attempt(fn):
    try:
        return fn()
    except Exception as e:
        return 'raises %s %s' % (type(e).__name__, getattr(e, 'status', None))


ADDR = re.compile(r'0x[0-9a-f]+')
REQ_READS = {
    'method': lambda r: r.method,
    'path': lambda r: r.path,
    'fullpath': lambda r: r.fullpath,
    'url': lambda r: r.url,
    'script': lambda r: r.script_name,
    'qs': lambda r: r.query_string,
    'query': lambda r: sorted(r.query.items()),
    'cookies': lambda r: sorted(r.cookies.items()),
    'signed': lambda r: r.get_cookie('sg', 'none', secret=SECRET),
    'header': lambda r: (r.headers.get('X-Nonce'), r.headers.get('Accept')),
    'env': lambda r: (r.environ.get('HTTP_X_NONCE'), r.environ.get('PATH_INFO'), r.environ.get('wsgi.url_scheme')),
    'get': lambda r: (r.get('HTTP_X_NONCE'), r['REQUEST_METHOD'], sorted(k for k in r.keys() if not k.startswith('ombott.'))),
    'user': lambda r: getattr(r, 'user', None),
    'mark': lambda r: getattr(r, 'mark', None),
    'json?': lambda r: r.is_json_requested,
    'xhr': lambda r: r.is_xhr,
    'auth': lambda r: r.auth,
    'route': lambda r: getattr(r.route, 'rule', None),
    'args': lambda r: sorted(r.url_args.items()),
    'addr': lambda r: (r.remote_addr, r.remote_route),
    'ctype': lambda r: (r.content_type, r.ctype),
    'clen': lambda r: r.content_length,
    'chunked': lambda r: r.chunked,
}
BODY_READS = {
    'body': lambda r: r.body.read(),
    'forms': lambda r: sorted(r.forms.items()),
    'files': lambda r: sorted((k, f.filename, f.file.read(), f.file.seek(0), sorted(f.headers.items())) for k, f in r.files.items()),
    'params': lambda r: sorted(r.params.items()),
    'json': lambda r: r.json,
    'post': lambda r: sorted((k, getattr(v, 'filename', v)) for k, v in r.POST.items()),
    'body2': lambda r: r.body.read(),
}
RESP_READS = {
    'status': lambda p: (p.status, p.status_code, p.status_line),
    'headers': lambda p: sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in p.headers.items()),
    'list': lambda p: sorted(p.headerlist),
    'charset': lambda p: p.charset,
    'ctype': lambda p: p.content_type,
    'expires': lambda p: p.headers.get('Expires'),
    'body': lambda p: p.body if isinstance(p.body, (str, bytes)) else type(p.body).__name__,
}


def look(app, where, body=False):
    req, resp = app.request, app.response
    out = [where]
    if req.environ['vx.log'] is None:
        return
    for k, f in REQ_READS.items():
        out.append((k, attempt(lambda: f(req))))
    if body:
        for k, f in BODY_READS.items():
            out.append((k, attempt(lambda: f(req))))
    for k, f in RESP_READS.items():
        out.append((k, attempt(lambda: f(resp))))
    req.environ['vx.log'].append(out)


def point(app, name):
    """A place inside a handler at which other activity may be injected by the harness."""
    cb = app.request.environ.get('vx.point')
    if cb is not None:
        cb(name)


class FileLike:
    def __init__(self, data):
        self.data, self.closed = io.BytesIO(data), 0

    def read(self, n=-1):
        return self.data.read(n)

    def close(self):
        self.closed += 1


class Canary:
    """An object a handler creates for one request; weakly referable."""

    def __init__(self, text):
        self.text = text

    def __iter__(self):
        yield self.text


class Boom(Exception):
    pass


def by_host(host):
    """a domain map: other hosts than h.test are sites of their own"""
    return 'site-' + host[:9] if host and not host.startswith('h.') else None


def by_any_host(host):
    return 'site-' + host[:9] if host else None


def build(config=None, app=None, watch=None, hooks=True, errors=True):
    """watch(obj): called with the per-request objects created by handlers."""
    import ombott
    from ombott import HTTPError, HTTPResponse
    if app is None:
        app = ombott.Ombott(config)
    req, resp = app.request, app.response
    watch = watch or (lambda o: o)
    H = {}

    def handler(name):
        def deco(f):
            H[name] = f
            return f
        return deco

    # objects an application keeps for all its requests
    const_err = HTTPError(418, 'constant error', X_Const='1')
    const_resp = HTTPResponse('constant response', 203, {'X-Const': '2'})
    const_resp.set_cookie('const', 'const')
    const_multi = HTTPResponse('multi', 202, [('X-M', 'a'), ('X-M', 'b')])

    @handler('plain')
    def plain(n):
        look(app, 'in')
        point(app, 'in')
        look(app, 'again')
        return 'plain ' + n

    @handler('cookies')
    def cookies(n):
        resp.set_cookie('a', n, path='/x', httponly=True)
        point(app, 'set')
        resp.set_cookie('s', ['signed', 1], secret=SECRET)
        resp.delete_cookie('gone')
        look(app, 'in')
        return 'cookies %s %s' % (n, req.cookies.get('n'))

    @handler('headers')
    def headers(n):
        resp.headers['X-A'] = n
        resp.headers.append('X-B', n + '1')
        point(app, 'set')
        resp.headers.append('X-B', n + '2')
        resp.headers.setdefault('X-C', n)
        resp.headers.update({'X-D': n})
        resp.content_type = 'text/plain; charset=latin1'
        look(app, 'in')
        return 'headers %s' % req.headers.get('X-Nonce')

    @handler('status')
    def status(n):
        resp.status = 201
        point(app, 'set')
        look(app, 'in')
        return 'created ' + n

    @handler('reason')
    def reason(n):
        resp.status = '299 Custom ' + n
        point(app, 'set')
        look(app, 'in')
        return 'reason ' + req.path

    @handler('nocontent')
    def nocontent(n):
        resp.status = 204
        resp.headers['X-A'] = n
        resp.headers['Content-Length'] = '9'
        return 'nocontent'

    @handler('notmodified')
    def notmodified(n):
        resp.headers['ETag'] = n
        resp.headers['Last-Modified'] = 'x'
        resp.status = 304

    @handler('empty')
    def empty(n):
        resp.headers['X-A'] = n
        return ''

    @handler('bytes')
    def bytes_(n):
        resp.content_type = 'application/octet-stream'
        return n.encode() + b'\xff\x00'

    @handler('charset')
    def charset(n):
        resp.content_type = 'text/plain; charset=utf-16'
        point(app, 'set')
        return 'wide \u20ac'

    @handler('badcharset')
    def badcharset(n):
        resp.content_type = 'text/plain; charset=nope'
        resp.set_cookie('bad', n)
        return 'x'

    @handler('length')
    def length(n):
        resp.headers['Content-Length'] = '6'
        resp.expires = 0
        return 'length'

    @handler('raise_resp')
    def raise_resp(n):
        resp.set_cookie('kept', n)
        resp.headers['X-Dropped'] = n
        r = HTTPResponse('raised ' + n, 207, {'X-R': n})
        r.set_cookie('own', n)
        point(app, 'set')
        raise r

    @handler('raise_plain')
    def raise_plain(n):
        resp.set_cookie('kept', n)
        look(app, 'in')
        raise HTTPResponse('raised plain', 203)

    @handler('return_resp')
    def return_resp(n):
        resp.headers['X-Dropped'] = n
        r = HTTPResponse(['a', n], 208)
        r.headers.append('X-R', n)
        r.headers.append('X-R', n + 'b')
        return r

    @handler('raise_err')
    def raise_err(n):
        resp.set_cookie('kept', n)
        e = HTTPError(409, 'conflict ' + n, X_E=n)
        point(app, 'set')
        raise e

    @handler('err_handled')
    def err_handled(n):
        resp.set_cookie('kept', n)
        raise HTTPError(410, 'gone ' + n, X_E=n)

    @handler('const_err')
    def h_const_err(n):
        resp.set_cookie('kept', n)
        resp.headers['X-A'] = n
        point(app, 'set')
        raise const_err

    @handler('const_resp')
    def h_const_resp(n):
        resp.headers['X-A'] = n
        raise const_resp

    @handler('const_plus')
    def h_const_plus(n):
        resp.set_cookie('plus', n)
        return const_resp

    @handler('const_ret')
    def h_const_ret(n):
        resp.set_cookie('kept', n)
        return const_multi

    @handler('copy_resp')
    def copy_resp(n):
        resp.headers['X-A'] = n
        resp.set_cookie('cp', n)
        c = resp.copy(HTTPResponse)
        c.headers.append('X-A', n + '2')
        c.body = 'copied ' + n
        raise c

    @handler('abort')
    def h_abort(n):
        resp.headers['X-A'] = n
        ombott.abort(403, 'forbidden ' + n)

    @handler('redirect')
    def h_redirect(n):
        resp.headers['X-A'] = n
        resp.set_cookie('rd', n)
        point(app, 'set')
        ombott.redirect('/to/' + n)

    @handler('crash')
    def crash(n):
        resp.set_cookie('cr', n)
        resp.headers['X-A'] = n
        resp.status = 202
        point(app, 'set')
        raise watch(Boom('crash ' + n))

    @handler('critical')
    def critical(n):
        resp.set_cookie('cr', n)
        resp.headers.dict['X-Five'] = 5
        return 'critical ' + n

    @handler('exit')
    def exit_(n):
        resp.set_cookie('ex', n)
        resp.headers['X-A'] = n
        raise (SystemExit if req.method == 'GET' else KeyboardInterrupt)('exit ' + n)

    @handler('gen')
    def gen(n):
        resp.headers['X-A'] = n
        yield 'gen '
        point(app, 'gen')
        yield n
        yield ' ' + req.path

    @handler('gen_bytes')
    def gen_bytes(n):
        yield b''
        resp.headers['X-Late'] = n
        yield n.encode()

    @handler('gen_crash')
    def gen_crash(n):
        resp.set_cookie('cr', n)
        raise Boom('gen ' + n)
        yield

    @handler('gen_later')
    def gen_later(n):
        resp.set_cookie('cr', n)
        yield 'first ' + n
        raise Boom('later')

    @handler('gen_raise')
    def gen_raise(n):
        resp.set_cookie('cr', n)
        raise HTTPResponse('from generator ' + n, 206)
        yield

    @handler('gen_empty')
    def gen_empty(n):
        resp.headers['X-A'] = n
        return
        yield

    @handler('filelike')
    def filelike(n):
        return watch(FileLike(b'file ' + n.encode()))

    @handler('badtype')
    def badtype(n):
        resp.headers['X-A'] = n
        return [object]

    @handler('canary')
    def canary(n):
        c = watch(Canary('canary ' + n))
        req.user = c.text
        req.canary = c
        return c

    @handler('resp_body')
    def resp_body(n):
        resp.body = 'body ' + n
        look(app, 'in')
        return resp.body

    @handler('ext')
    def ext(n):
        before = getattr(req, 'user', 'nobody')
        req.user = n
        req.mark = [n]
        point(app, 'set')
        look(app, 'in')
        return 'ext %s %s %s' % (before, req.user, req.mark)

    @handler('envset')
    def envset(n):
        look(app, 'before')
        req['HTTP_X_NONCE'] = 'changed ' + n
        req['QUERY_STRING'] = 'changed=' + n
        req['HTTP_COOKIE'] = 'n=changed' + n
        point(app, 'set')
        look(app, 'after')
        return 'envset ' + n

    @handler('copy_req')
    def copy_req(n):
        c = req.copy()
        c['HTTP_X_NONCE'] = 'copy ' + n
        c.user = 'copy ' + n
        c['QUERY_STRING'] = 'copy=' + n
        point(app, 'copied')
        look(app, 'after copy')
        return 'copy %s %s %s' % (c.headers.get('X-Nonce'), req.headers.get('X-Nonce'), getattr(req, 'user', None))

    @handler('mutate')
    def mutate(n):
        # everything handed out belongs to this request only
        req.query['extra'] = n
        req.cookies['extra'] = n
        req.url_args['extra'] = n
        req.headers
        req.route
        req.environ['vx.extra'] = n
        look(app, 'in', body=True)
        return 'mutate ' + n

    @handler('body')
    def body(n):
        look(app, 'in', body=True)
        point(app, 'read')
        look(app, 'again', body=True)
        return 'body %r' % req.body.read()

    @handler('forms')
    def forms(n):
        f = req.forms
        point(app, 'read')
        f['extra'] = n
        out = sorted(f.items())
        look(app, 'in')
        return 'forms %r %r' % (out, sorted(req.params.items()))

    @handler('files')
    def files(n):
        out = []
        for k, f in req.files.items():
            point(app, 'read')
            out.append((k, f.filename, f.content_type, f.file.read()))
            watch(f)
        return 'files %r %r' % (sorted(out), sorted(req.forms.items()))

    @handler('json')
    def json_(n):
        j = req.json
        point(app, 'read')
        if isinstance(j, dict):
            j['extra'] = n
        return 'json %r' % (req.json,)

    @handler('upload_err')
    def upload_err(n):
        resp.set_cookie('up', n)
        resp.headers['X-A'] = n
        try:
            req.files
        except HTTPError as e:
            # an error handed out belongs to this request only
            e.headers['X-Mutated'] = n
            e.body = 'mutated ' + n
            e.set_cookie('mutated', n)
            raise
        return 'no error'

    @handler('static')
    def static(n):
        resp.headers['X-A'] = n
        resp.set_cookie('st', n)
        point(app, 'set')
        return ombott.static_file(req.query.get('f', '__init__.py'), STATIC)

    @handler('hdrclear')
    def hdrclear(n):
        resp.headers['X-A'] = n
        resp.headers.clear()
        resp.headers['X-Z'] = n
        del resp.headers['X-Z']
        return 'clear'

    @handler('prog')
    def prog(n):
        k = int(req.query.get('k', '0')) if isinstance(req.query.get('k', '0'), str) else 0
        return run_program(app, program(k), n)

    for name, f in H.items():
        app.route('/h/%s/<n>' % name, ['GET', 'POST'], f)
    app.route('/only/<n>', 'PUT', lambda n: 'put ' + n)

    @app.route('/site-<site>/<rest:path>', 'ANY')
    def of_site(site, rest):
        look(app, 'site')
        point(app, 'site')
        resp.set_cookie('site', site)
        return 'site %s %s %s' % (site, rest, sorted(req.url_args.items()))
    app.route('/any/<n>', 'ANY', lambda n: 'any %s %s' % (n, req.method))
    app.route('/hooked/sub/<n>', 'GET', lambda n: look(app, 'hooked') or 'hooked ' + n)
    app.route('/typed/<n:re:q[0-9]+q>/<k:int>', 'GET', lambda n, k: 'typed %s %d %r' % (n, k, sorted(req.url_args.items())))
    app.route('/opt/{a}/:n', 'GET', lambda a, n: 'opt %s %s %r' % (a, n, sorted(req.url_args.items())))
    app.route('/opt', 'ANY', lambda: 'opt %r' % sorted(req.url_args.items()))
    app.route('/tail/<p:path>', 'GET', lambda p: 'tail ' + p)

    @app.on_route('/hooked')
    def rh(route):
        resp.headers['X-Hook'] = route
        req.mark = 'hooked ' + route
        point(app, 'hook')

    if errors:
        @app.error(404, '/part/<n>')
        def partial(route, params):
            resp.headers['X-Part'] = repr(params)
            resp.status = 404
            return 'partial %s %r' % (route, sorted(params.items()) if isinstance(params, dict) else params)

        @app.error(410)
        def e410(e):
            look(app, 'e410')
            e.headers['X-Mut'] = req.headers.get('X-Nonce', 'none')
            resp.headers['X-Handled'] = req.headers.get('X-Nonce', 'none')
            resp.set_cookie('handled', req.headers.get('X-Nonce', 'none'))
            return 'handled %s' % e.body

        @app.error(413)
        def e413(e):
            look(app, 'e413')
            e.headers['X-Mut'] = req.headers.get('X-Nonce', 'none')
            e.body = 'too large for ' + req.headers.get('X-Nonce', 'none')
            e.set_cookie('mut', req.headers.get('X-Nonce', 'none'))
            resp.headers['X-Handled'] = req.headers.get('X-Nonce', 'none')
            return str(e.body)

        @app.error(405)
        def e405(e):
            e.headers['X-Mut'] = req.headers.get('X-Nonce', 'none')
            resp.set_cookie('h405', req.headers.get('X-Nonce', 'none'))
            return '405 %s' % resp.headers.get('Allow')
    if errors == 'all':
        # error handlers that use and change what they are given
        def generic(e):
            look(app, 'error')
            mine = req.headers.get('X-Nonce', 'none')
            e.headers['X-Mut'] = mine
            e.headers.append('X-Mut', 'more')
            e.set_cookie('mut', mine)
            resp.headers['X-Handled'] = mine
            resp.set_cookie('handled', mine)
            out = app.default_error_handler(e)
            e.body = 'changed for ' + mine
            e.status = 499
            e.exception = e.traceback = None
            return out
        for code in (400, 403, 404, 409, 416, 500):
            app.error(code)(generic)
    if hooks:
        @app.on('before_request')
        def before():
            look(app, 'before')
            resp.headers['X-Before'] = req.headers.get('X-Nonce', 'none')
            if 'hookcookie' in req.environ.get('QUERY_STRING', ''):
                resp.set_cookie('hook', req.headers.get('X-Nonce', 'none'))
            point(app, 'before')

        @app.on('after_request')
        def after():
            look(app, 'after')
            if 'aftercookie' in req.environ.get('QUERY_STRING', ''):
                resp.set_cookie('after', req.headers.get('X-Nonce', 'none'))
            point(app, 'after')
    app.__dict__['farm'] = H
    return app


NPROG = 400


@functools.lru_cache(None)
def program(k):
    """The k-th random program of response operations."""
    rng = random.Random('farm-program-%d' % k)
    ops = []
    if novel() and k % 3 == 0:
        # names and numbers that only a changed source knows
        w = [re.sub('[^A-Za-z0-9_-]', '', x) for x in AD.novel_words()] + ['X-W']
        w = [x for x in w if x and x.lower() not in ('content-length', 'content-type', 'set-cookie', 'transfer-encoding')] or ['X-W']
        for _ in range(rng.choice([1, 2])):
            ops.append(rng.choice([
                lambda: ('set', rng.choice(w), rng.choice(['n', 'const', '1'])),
                lambda: ('append', rng.choice(w), rng.choice(['n', 'const'])),
                lambda: ('cookie', rng.choice(w), rng.choice(['n', 'const']), {}),
                lambda: ('status', AD.number(rng, 599, 200)),
                lambda: ('env', 'HTTP_' + rng.choice(w).upper().replace('-', '_')),
            ])())
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        ops.append(rng.choice([
            lambda: ('status', rng.choice([200, 201, 202, 204, 299, 299, 304, 404, 418, 499, 499, 599])),
            lambda: ('reason', rng.choice([200, 299, 299, 404, 499, 499])),
            lambda: ('ctype', rng.choice(['text/plain', 'text/csv', 'text/plain; charset=latin1', 'text/html; charset=cp1252', 'application/octet-stream', 'text/html; charset=utf-8', 'text/x'])),
            lambda: ('set', rng.choice(['X-A', 'X-B', 'x-a', 'ETag', 'Allow', 'Vary']), rng.choice(['n', 'const', ''])),
            lambda: ('append', rng.choice(['X-A', 'X-B', 'Vary']), rng.choice(['n', 'const'])),
            lambda: ('setdefault', rng.choice(['X-A', 'X-B', 'X-L']), rng.choice(['n', 'const'])),
            lambda: ('update', rng.choice(['X-A', 'X-U']), rng.choice(['n', 'const'])),
            lambda: ('del', rng.choice(['X-A', 'X-B', 'X-Before'])),
            lambda: ('clear',),
            lambda: ('expires', rng.choice([0, 1000000000, 1700000000])),
            lambda: ('cookie', rng.choice(['a', 'b', 'hook']), rng.choice(['n', 'const', '']), rng.choice([{}, {'path': '/p'}, {'max_age': 10}, {'httponly': True}, {'expires': 1000000000}, {'domain': 'd.test'}])),
            lambda: ('delcookie', rng.choice(['a', 'b'])),
            lambda: ('charset',),
            lambda: ('look',),
            lambda: ('point',),
            lambda: ('ext', rng.choice(['user', 'mark', 'other'])),
            lambda: ('env', rng.choice(['HTTP_X_NONCE', 'QUERY_STRING', 'HTTP_COOKIE', 'HTTP_ACCEPT', 'CONTENT_TYPE', 'vx.own'])),
            lambda: ('mutate', rng.choice(['query', 'cookies', 'url_args', 'forms', 'params'])),
            lambda: ('copyreq',),
        ])())
    ops.append(('end', rng.choice(['str', 'str', 'wide', 'bytes', 'list', 'gen', 'empty', 'none', 'dict', 'file', 'resp', 'respc', 'raise', 'raisec', 'err', 'err', 'errhandled', 'crash', 'abort', 'redirect', 'copy',
                                  'copyraise', 'genraise', 'genlate', 'static']), rng.choice([200, 201, 299, 404, 409, 410, 413, 499, 500])))
    return ops


def run_program(app, ops, n):
    import ombott
    req, resp = app.request, app.response
    val = lambda v: n if v == 'n' else v
    out = []
    for op, *a in ops:
        if op == 'status':
            resp.status = a[0]
        elif op == 'reason':
            resp.status = '%d Reason %s' % (a[0], n)
        elif op == 'ctype':
            resp.content_type = a[0]
        elif op == 'set':
            resp.headers[a[0]] = val(a[1])
        elif op == 'append':
            resp.headers.append(a[0], val(a[1]))
        elif op == 'setdefault':
            resp.headers.setdefault(a[0], val(a[1]))
        elif op == 'update':
            resp.headers.update({a[0]: val(a[1])})
        elif op == 'del':
            resp.headers.clear(a[0])
        elif op == 'clear':
            resp.headers.clear()
        elif op == 'expires':
            resp.expires = a[0]
            out.append(str(attempt(lambda: resp.expires)))
        elif op == 'cookie':
            resp.set_cookie(a[0], val(a[1]), **a[2])
        elif op == 'delcookie':
            resp.delete_cookie(a[0])
        elif op == 'charset':
            out.append(resp.charset)
        elif op == 'look':
            look(app, 'prog')
        elif op == 'point':
            point(app, 'prog')
        elif op == 'ext':
            out.append(repr(getattr(req, a[0], None)))
            setattr(req, a[0], n)
        elif op == 'env':
            req[a[0]] = n
        elif op == 'mutate':
            m = getattr(req, a[0])
            out.append(repr(sorted(m.items())))
            m['extra'] = n
        elif op == 'copyreq':
            c = req.copy()
            c['HTTP_X_NONCE'] = 'copy'
            c.user = 'copy'
            out.append('%s %s' % (c.headers.get('X-Nonce'), req.headers.get('X-Nonce')))
        elif op == 'end':
            text = ' '.join([n] + out)
            end, code = a
            if end == 'str':
                return text
            if end == 'wide':
                return 'w\xe9'
            if end == 'bytes':
                return text.encode()
            if end == 'list':
                return [text, ' more']
            if end == 'gen':
                return (t for t in ['', text, ' ', req.path])
            if end == 'genlate':
                def late():
                    yield ''
                    resp.headers['X-Late'] = n
                    resp.status = code
                    yield text
                return late()
            if end == 'empty':
                return ''
            if end == 'none':
                return None
            if end == 'dict':
                return {text: 1}
            if end == 'file':
                return FileLike(text.encode())
            if end in ('resp', 'respc', 'raise', 'raisec'):
                r = ombott.HTTPResponse(text, code, {'X-R': n})
                if end.endswith('c'):
                    r.set_cookie('own', n)
                    r.content_type = 'text/x'
                if end.startswith('raise'):
                    raise r
                return r
            if end == 'err':
                raise ombott.HTTPError(code, text, X_E=n)
            if end == 'errhandled':
                return ombott.HTTPError(410, text)
            if end == 'crash':
                raise Boom(text)
            if end == 'abort':
                ombott.abort(code, text)
            if end == 'redirect':
                ombott.redirect('/to/' + n)
            if end == 'copy':
                return resp.copy(ombott.HTTPResponse)
            if end == 'copyraise':
                r = resp.copy(ombott.HTTPResponse)
                r.headers['X-Copy'] = n
                raise r
            if end == 'genraise':
                def raising():
                    raise ombott.HTTPResponse(text, code)
                    yield
                return raising()
            return ombott.static_file('wsgi.py', STATIC, mimetype='text/x-farm')


HANDLERS = ('plain cookies headers status reason nocontent notmodified empty bytes charset badcharset length raise_resp raise_plain return_resp raise_err err_handled const_err '
            'const_resp const_plus const_ret copy_resp abort redirect crash critical exit gen gen_bytes gen_crash gen_later gen_raise gen_empty filelike badtype canary resp_body ext envset '
            'copy_req mutate hdrclear').split()


def multipart(n, close=True):
    return ('--bd\r\nContent-Disposition: form-data; name="f"\r\n\r\n%s\r\n--bd\r\nContent-Disposition: form-data; name="u"; filename="%s.txt"\r\n'
            'Content-Type: text/plain\r\n\r\nfile %s\r\n--bd--\r\n' % (n, n, n)).encode()[:None if close else -30]


def _post(kind, **kw):
    return kind, kw


# kind -> (path, method, extra) ; %s is the nonce
BODIES = {
    'body_plain': ('/h/body/%s', 'POST', lambda n: dict(body=b'raw ' + n.encode(), ctype='text/plain')),
    'body_form': ('/h/forms/%s', 'POST', lambda n: dict(body=b'a=%b&b=2' % n.encode(), ctype='application/x-www-form-urlencoded')),
    'body_form2': ('/h/body/%s', 'POST', lambda n: dict(body=b'a=%b&b=2' % n.encode(), ctype='application/x-www-form-urlencoded')),
    'body_multi': ('/h/files/%s', 'POST', lambda n: dict(body=multipart(n), ctype='multipart/form-data; boundary=bd')),
    'body_multi2': ('/h/body/%s', 'POST', lambda n: dict(body=multipart(n), ctype='multipart/form-data; boundary=bd')),
    'body_json': ('/h/json/%s', 'POST', lambda n: dict(body=b'{"a": "%b"}' % n.encode(), ctype='application/json')),
    'body_chunked': ('/h/body/%s', 'POST', lambda n: dict(body=b'1b;e=1\r\n%b\r\n0004\r\nmore\r\n12\r\n%b\r\n0\r\n\r\n' % (n.encode() * 3, n.encode() * 2) if len(n) == 9 else b'%x\r\n%b\r\n0\r\n\r\n' % (len(n), n.encode()),
                                                   chunked=True, ctype='text/plain')),
    'body_chunked_form': ('/h/forms/%s', 'POST', lambda n: dict(body=b'2\r\na=\r\n%x\r\n%b\r\n001\r\n&\r\n3\r\nb=2\r\n0\r\n\r\n' % (len(n), n.encode()), chunked=True, ctype='application/x-www-form-urlencoded')),
    'body_chunked_multi': ('/h/files/%s', 'POST', lambda n: dict(body=b'%x\r\n%b\r\n005a\r\n%b\r\n%x\r\n%b\r\n0\r\n\r\n' % (17, multipart(n)[:17], multipart(n)[17:107], len(multipart(n)) - 107, multipart(n)[107:]), chunked=True,
                                                                 ctype='multipart/form-data; boundary=bd')),
    'body_unread': ('/h/plain/%s', 'POST', lambda n: dict(body=b'unread ' + n.encode(), ctype='text/plain')),
    'body_big': ('/h/body/%s', 'POST', lambda n: dict(body=n.encode() * 40, ctype='text/plain')),
    'body_mutate': ('/h/mutate/%s', 'POST', lambda n: dict(body=b'a=%b' % n.encode(), ctype='application/x-www-form-urlencoded')),
    'bad_chunked': ('/h/body/%s', 'POST', lambda n: dict(body=b'9\r\n%b\r\nzz' % n.encode(), chunked=True)),
    'bad_chunked2': ('/h/forms/%s', 'POST', lambda n: dict(body=b'ff\r\n%b' % n.encode(), chunked=True)),
    'bad_json': ('/h/json/%s', 'POST', lambda n: dict(body=b'{"a": %b' % n.encode(), ctype='application/json')),
    'bad_multi': ('/h/upload_err/%s', 'POST', lambda n: dict(body=b'no boundary ' + n.encode(), ctype='multipart/form-data; boundary=bd')),
    'bad_multi2': ('/h/files/%s', 'POST', lambda n: dict(body=multipart(n, False), ctype='multipart/form-data; boundary=bd')),
    'bad_multi3': ('/h/files/%s', 'POST', lambda n: dict(body=b'no boundary at all', ctype='multipart/form-data; boundary=bd')),
    'bad_length': ('/h/body/%s', 'POST', lambda n: dict(body=n.encode(), cl='x')),
    'too_large': ('/h/forms/%s', 'POST', lambda n: dict(body=b'a=' + n.encode() * 400, ctype='application/x-www-form-urlencoded')),
    'too_large_chunked': ('/h/json/%s', 'POST', lambda n: dict(body=b'fff\r\n' + (n.encode() * 500)[:4095] + b'\r\n0\r\n\r\n', chunked=True, ctype='application/json')),
    'too_large_up': ('/h/upload_err/%s', 'POST', lambda n: dict(body=multipart(n * 400), ctype='multipart/form-data; boundary=bd')),
}
PATHS = {
    'r404': ('/nothing/%s', 'GET'),
    'r404p': ('/part/%s/deep', 'GET'),
    'r405': ('/only/%s', 'GET'),
    'r405b': ('/h/plain/%s', 'DELETE'),
    'put': ('/only/%s', 'PUT'),
    'any': ('/any/%s', 'BREW'),
    'hooked': ('/hooked/sub/%s', 'GET'),
    'typed': ('/typed/%s/17', 'GET'),
    'typed404': ('/typed/%s/x', 'GET'),
    'opt0': ('/opt', 'GET'),
    'opt2': ('/opt/%s/two', 'GET'),
    'tail': ('/tail/%s/a/b', 'GET'),
    'root404': ('/', 'GET'),
}
SPECIAL = {
    'badpath': ('/h/plain/%s', 'GET'),
    'prog': ('/h/prog/%s', 'GET'),
    'static': ('/h/static/%s', 'GET'),
    'static_range': ('/h/static/%s', 'GET'),
    'static_416': ('/h/static/%s', 'GET'),
    'static_304': ('/h/static/%s', 'GET'),
    'static_404': ('/h/static/%s', 'GET'),
    'static_403': ('/h/static/%s', 'GET'),
}
KINDS = tuple(['h_' + h for h in HANDLERS] + list(BODIES) + list(PATHS) + list(SPECIAL))
def novel():
    return bool(AD.novel_words() or AD.novel_ints())


# with words that only a changed source has: w = in the query, e = as request header, c = as cookie
WORD_MODS = ('w0', 'w1', 'w2', 'e0', 'e1', 'e2', 'c0', 'c1')
MODS = (WORD_MODS * 2 if novel() else ()) + ('HEAD', 'json', 'cookie', 'signed', 'noqs', 'hookcookie', 'aftercookie', 'http10', 'xhr', 'auth', 'script', 'nohost', 'noiter', 'srfail', 'xhost', 'same', 'same', 'bare')


class Env(dict):
    """environ that can be weakly referenced."""
    __slots__ = ('__weakref__',)


def signed_cookie():
    import ombott
    r = ombott.HTTPResponse()
    r.set_cookie('sg', 'signed value', secret=SECRET)
    return r.headerlist[-1][1].split(';')[0]


def make_env(kind, mods, n, cls=Env):
    kw = {}
    own = n
    if 'same' in mods:
        # all the requests are alike but for one header
        n = 'same'
    if kind.startswith('h_'):
        path, method = '/h/%s/%%s' % kind[2:], 'GET'
    elif kind in BODIES:
        path, method, f = BODIES[kind]
        kw = f(n)
    elif kind in PATHS:
        path, method = PATHS[kind]
    else:
        path, method = SPECIAL[kind]
    if '%s' in path:
        path = path % n
    qs = [] if 'noqs' in mods else ['x=' + n, 'y=1']
    headers = {} if 'bare' in mods else {'X-Nonce': own}
    if kind == 'prog':
        qs.extend('k=' + m[1:] for m in mods if m[0] == 'k' and m[1:].isdigit())
    if kind == 'static_range':
        headers['Range'] = 'bytes=0-3'
        qs.append('f=wsgi.py')
    elif kind == 'static_416':
        headers['Range'] = 'bytes=9999999-'
    elif kind == 'static_304':
        headers['If-Modified-Since'] = 'Fri, 01 Jan 2100 00:00:00 GMT'
    elif kind == 'static_404':
        qs.append('f=' + n)
    elif kind == 'static_403':
        qs.append('f=../setup.sh')
    for m in ('hookcookie', 'aftercookie'):
        if m in mods:
            qs.append(m)
    noise = {}
    for m in mods:
        if m in WORD_MODS:
            r = random.Random('farm-word-' + m)
            w = quote_plus(r.choice(AD.novel_words() or ['w']))
            if m[0] == 'w':
                qs.insert(r.randrange(len(qs) + 1), w + r.choice(['=' + n, '=1', '=on', '']))
            elif m[0] == 'c':
                headers['Cookie'] = '%s=%s; n=%s' % (re.sub('[^A-Za-z0-9_-]', '', w) or 'w', r.choice([n, '1']), n)
            else:
                for k, v in W.novel_env().items():
                    noise[k] = r.choice(v)
    if 'HEAD' in mods and method == 'GET':
        method = 'HEAD'
    if 'json' in mods:
        headers['Accept'] = 'application/json'
    if 'cookie' in mods:
        headers['Cookie'] = 'n=%s; other=1' % n
    if 'signed' in mods:
        headers['Cookie'] = 'n=%s; %s' % (n, signed_cookie())
    if 'xhr' in mods:
        headers['X-Requested-With'] = 'XMLHttpRequest'
    if 'auth' in mods:
        headers['Authorization'] = 'Basic dXNlcjpwYXNz'
    if 'xhost' in mods:
        headers['X-Forwarded-Host'] = n + '.test'
    env = W.environ(method, path, qs='&'.join(qs), headers=headers, cls=cls, proto='HTTP/1.0' if 'http10' in mods else 'HTTP/1.1',
                    host=None if 'nohost' in mods else 'h.test', **kw)
    if kind == 'badpath':
        env['PATH_INFO'] += '\xff'
    if 'script' in mods:
        env['SCRIPT_NAME'] = '/mount'
    for k, v in noise.items():
        env.setdefault(k, v)
    env['vx.log'] = []
    env['vx.point'] = None
    return env


class Disconnect(Exception):
    pass


def serve(app, env, mods=(), hook=None):
    if 'srfail' in mods:
        def start_response(status, headers, exc=None):
            raise Disconnect()
        r = W.Result()
        try:
            out = app(env, start_response)
            getattr(out, 'close', lambda: None)()
        except (Exception, SystemExit, KeyboardInterrupt) as e:
            r.escaped = e
        return r
    try:
        return W.call(app, env, iterate='noiter' not in mods, hook=hook)
    except (SystemExit, KeyboardInterrupt) as e:
        r = W.Result()
        r.escaped = e
        return r


def outcome(res, env):
    """Everything observable of one exchange, comparable."""
    body = res.body
    return (res.status, sorted(h for h in res.headers if h[0].lower() != 'date') if isinstance(res.headers, list) else repr(res.headers), body,
            type(res.escaped).__name__ if res.escaped is not None else None,
            type(res.iter_exc).__name__ if res.iter_exc is not None else None,
            list(res.problems), env['vx.log'], W.errors_text(env))


def text_of(out):
    return ADDR.sub('0xADDR', repr(out))


def normal(out, n):
    """-> (text with the own nonce replaced, nonces of other requests in it)."""
    t = text_of(out)
    other = {x for x in NONCE_RE.findall(t) if x != n}
    return t.replace(n, PLACE), other
