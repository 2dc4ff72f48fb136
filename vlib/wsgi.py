"""A WSGI server stand-in that records everything at the boundary, and an independent PEP 3333 validator."""
import io
import random
import re
import sys
import zlib

from . import core

TOKEN_RE = re.compile(r"[!#$%&'*+\-.^_`|~0-9A-Za-z]+")
STATUS_RE = re.compile(r'[1-9][0-9][0-9] [^\x00-\x1f\x7f]*[^\x00-\x20\x7f][^\x00-\x1f\x7f]*')


def expand(data):
    """bytes as they are; ('big', n): n bytes that differ at every offset (cases stay small enough to record)"""
    if isinstance(data, (tuple, list)):
        n = data[1]
        unit = b''.join(b'%x;' % i for i in range(0, 1 << 22, 4099)) + b'\r\n-'
        return (unit * (n // len(unit) + 1))[:n]
    return data


class Input:
    """wsgi.input over `data`, fragmenting reads by `script` (max bytes per read, cycled) and recording every read.

    After `data` come `tail` bytes: they belong to the next request of the connection and must never be asked for.
    """

    def __init__(self, data, script=None, tail=b''):
        self.buf = data + tail
        self.own = len(data)
        self.pos = 0
        self.script = script or None
        self.k = 0
        self.log = []        # (asked, returned)
        self.unbounded = 0
        self.empty_reads = 0
        self.useless = 0

    def _limit(self):
        if not self.script:
            return 1 << 60
        v = self.script[self.k % len(self.script)]
        self.k += 1
        return v

    def read(self, n=-1):
        if n is None or n < 0:
            self.unbounded += 1
            n = len(self.buf) - self.pos
            got = self.buf[self.pos:]
            self.log.append((-1, len(got)))
        elif n == 0:
            got = b''
            self.log.append((0, 0))
        else:
            got = self.buf[self.pos:self.pos + min(n, max(1, self._limit()))]
            self.log.append((n, len(got)))
            if not got:
                self.empty_reads += 1
        if not got:
            self.useless += 1
            if self.useless > core.USELESS_READS:
                raise core.Spin()
        self.pos += len(got)
        return got

    def readline(self, n=-1):
        j = self.buf.find(b'\n', self.pos)
        end = len(self.buf) if j < 0 else j + 1
        if n is not None and n >= 0:
            end = min(end, self.pos + n)
        got = self.buf[self.pos:end]
        self.log.append((len(got), len(got)))
        if not got:
            self.useless += 1
            if self.useless > core.USELESS_READS:
                raise core.Spin()
        self.pos = end
        return got

    def readlines(self, hint=None):
        return list(self)

    def __iter__(self):
        while True:
            ln = self.readline()
            if not ln:
                return
            yield ln

    consumed = property(lambda s: s.pos)

    def reach(self):
        """Furthest offset ever asked for."""
        pos = far = 0
        for asked, got in self.log:
            far = max(far, pos + asked if asked >= 0 else 1 << 60)
            pos += got
        return far


_KEEP = object()


def environ(method='GET', path='/', qs='', headers=None, body=None, cl=_KEEP, stream=None, ctype=None,
            chunked=False, host='h.test', script=None, extra=None, proto='HTTP/1.1', cls=dict):
    """path: text (sent as UTF-8) or bytes (sent raw)."""
    raw = path.encode('utf8', 'surrogateescape') if isinstance(path, str) else path
    env = cls({
        'REQUEST_METHOD': method,
        'SCRIPT_NAME': '',
        'PATH_INFO': raw.decode('latin1'),
        'QUERY_STRING': qs,
        'SERVER_NAME': 'srv.test',
        'SERVER_PORT': '80',
        'SERVER_PROTOCOL': proto,
        'REMOTE_ADDR': '192.0.2.7',
        'wsgi.version': (1, 0),
        'wsgi.url_scheme': 'http',
        'wsgi.multithread': True,
        'wsgi.multiprocess': False,
        'wsgi.run_once': False,
    })
    if host is not None:
        env['HTTP_HOST'] = host
    env['wsgi.errors'] = io.StringIO()
    if stream is None:
        stream = Input(body or b'', script)
    env['wsgi.input'] = stream
    if ctype is not None:
        env['CONTENT_TYPE'] = ctype
    if chunked:
        env['HTTP_TRANSFER_ENCODING'] = 'chunked'
    elif cl is _KEEP:
        if body is not None:
            env['CONTENT_LENGTH'] = str(len(body))
    elif cl is not None:
        env['CONTENT_LENGTH'] = str(cl)
    for k, v in (headers or {}).items():
        env['HTTP_' + k.upper().replace('-', '_')] = v
    if NOISE and novel_env():
        # decided by the request alone, so that a replay sees the same
        h = zlib.crc32(repr((raw, qs, cl if cl is not _KEEP else 0, ctype, stream.buf[:64] if hasattr(stream, 'buf') else 0)).encode('utf8', 'replace'))
        r = random.Random(h)
        if r.random() < .5:
            for k, vs in novel_env().items():
                if k not in env and k not in NO_NOISE and r.random() < .7:
                    env[k] = r.choice(vs)
    if AMBIENT:
        h = zlib.crc32(repr((raw, qs, ctype, stream.buf[:64] if hasattr(stream, 'buf') else 0, len(stream.buf) if hasattr(stream, 'buf') else 0,
                             tuple(stream.script or ()) if hasattr(stream, 'script') else 0)).encode('utf8', 'replace'))
        if h % 5 < 2:
            r = random.Random(h)
            for k in r.sample(AMBIENT_KEYS, r.randrange(1, 6)):
                if k not in env and k not in NO_NOISE and k not in (extra or ()):
                    env[k] = r.choice(AMBIENT_ENV[k])
        if AMBIENT == 'body':
            r = random.Random(h + 1)
            if method == 'POST' and r.random() < .4:
                env['REQUEST_METHOD'] = r.choice(BODY_METHODS)
            if chunked and cl is _KEEP and r.random() < .25:
                env['CONTENT_LENGTH'] = r.choice(['', '0', '1', '7', '100', '5000', '102401', '1000000', '99999999999'])   # does not count
    if extra:
        env.update(extra)
    return env


# What requests carry along and what the monitored properties do not depend on: spread over the workloads (decided by the
# request alone, so that a replay sees the same).  A check switches it on: AMBIENT = True, or 'body' for the method and a
# Content-Length next to chunked framing, too.
AMBIENT = False
BODY_METHODS = ['POST', 'PUT', 'PATCH', 'DELETE', 'GET', 'OPTIONS', 'REPORT']
AMBIENT_ENV = {
    'HTTP_USER_AGENT': ['Mozilla/5.0 (X11)', 'curl/8.5', ''],
    'HTTP_ACCEPT': ['*/*', 'text/html,application/xhtml+xml;q=0.9', 'image/png', ''],
    'HTTP_ACCEPT_ENCODING': ['gzip, deflate, br', 'identity', 'gzip;q=1.0, *;q=0'],
    'HTTP_ACCEPT_LANGUAGE': ['en', 'de-DE,de;q=0.9'],
    'HTTP_ACCEPT_CHARSET': ['latin1', 'utf-8'],
    'HTTP_CONNECTION': ['keep-alive', 'close', 'Upgrade'],
    'HTTP_UPGRADE': ['websocket', 'h2c'],
    'HTTP_EXPECT': ['100-continue'],
    'HTTP_TE': ['trailers', 'chunked'],
    'HTTP_TRAILER': ['X-Sum'],
    'HTTP_CACHE_CONTROL': ['no-cache', 'max-age=0'],
    'HTTP_PRAGMA': ['no-cache'],
    'HTTP_X_REQUESTED_WITH': ['XMLHttpRequest'],
    'HTTP_X_HTTP_METHOD_OVERRIDE': ['DELETE', 'GET', 'put'],
    'HTTP_X_FORWARDED_FOR': ['203.0.113.5', '1.1.1.1, 2.2.2.2'],
    'HTTP_X_FORWARDED_PROTO': ['https'],
    'HTTP_X_FORWARDED_HOST': ['front.test'],
    'HTTP_X_SCRIPT_NAME': ['/front'],
    'HTTP_X_ORIGINAL_URL': ['/other'],
    'HTTP_X_REWRITE_URL': ['/other'],
    'HTTP_FORWARDED': ['for=192.0.2.1;proto=https'],
    'HTTP_ORIGIN': ['http://o.test', 'null'],
    'HTTP_REFERER': ['http://o.test/x?y=1'],
    'HTTP_COOKIE': ['a=b; c="d"', 'sid=1'],
    'HTTP_AUTHORIZATION': ['Basic YTpi', 'Bearer x'],
    'HTTP_DNT': ['1'],
    'HTTP_IF_NONE_MATCH': ['*', '"x"'],
    'HTTP_IF_MODIFIED_SINCE': ['Mon, 01 Jan 2035 00:00:00 GMT'],
    'HTTP_RANGE': ['bytes=0-0', 'bytes=5-'],
    'HTTP_CONTENT_ENCODING': ['identity', 'gzip'],
    'HTTP_CONTENT_MD5': ['x'],
    'HTTP_CONTENT_TYPE': ['text/plain', 'multipart/form-data'],       # not CONTENT_TYPE
    'HTTP_CONTENT_LENGTH': ['3'],                                     # not CONTENT_LENGTH
    'HTTP_KEEP_ALIVE': ['timeout=5'],
    'REMOTE_USER': ['bob'],
    'AUTH_TYPE': ['Basic'],
    'REMOTE_HOST': ['client.test'],
    'GATEWAY_INTERFACE': ['CGI/1.1'],
    'SERVER_SOFTWARE': ['WSGIServer/0.2'],
    'HTTPS': ['on'],
    'wsgi.input_terminated': [True],
    'REQUEST_URI': ['/other'],
    'PATH_TRANSLATED': ['/srv/other'],
    'DOCUMENT_ROOT': ['/srv'],
    'HTTP_PROXY': ['http://p.test'],
}
AMBIENT_KEYS = sorted(AMBIENT_ENV)
NO_NOISE = set()
NOISE = False        # checks switch it on: environ entries that only a changed source mentions
_novel = None


def novel_env():
    """Environ entries named by the code under test but not by the reviewed code: nothing may depend on them."""
    global _novel
    if _novel is None:
        from . import autodict as AD
        _novel = {}
        ws = [w for w in AD.novel_words() if w.isascii()]
        vals = ['1', 'on', '', '0', 'gzip', 'chunked', 'identity', '100-continue', 'application/json', 'DELETE', 'GET', '/x', '5', 'a<b'] + [w for w in ws if w.isprintable()]
        for w in ws:
            if re.fullmatch('HTTP_[A-Z0-9_]+', w):
                _novel[w] = vals
            elif re.fullmatch(r'wsgi\.[a-z_]+', w) and w not in ('wsgi.file_wrapper', 'wsgi.input', 'wsgi.errors', 'wsgi.url_scheme'):
                _novel[w] = [True]
            elif re.fullmatch('[A-Z][A-Za-z0-9]*(-[A-Z][A-Za-z0-9]*)+', w):
                _novel['HTTP_' + w.upper().replace('-', '_')] = vals
        _novel = {k: v for k, v in _novel.items() if k not in ('HTTP_TRANSFER_ENCODING', 'HTTP_CONTENT_LENGTH', 'HTTP_CONTENT_TYPE', 'HTTP_HOST', 'HTTP_COOKIE')}
    return _novel


class Result:
    def __init__(self):
        self.sr = []          # (status, headers, exc_info given)
        self.chunks = []
        self.escaped = None   # exception out of app(...)
        self.iter_exc = None  # exception while iterating the body
        self.close_exc = None
        self.returned = None
        self.problems = []
        self.closed = 0

    @property
    def status(self):
        return self.sr[-1][0] if self.sr else None

    @property
    def code(self):
        try:
            return int(self.sr[-1][0][:3])
        except Exception:
            return None

    @property
    def headers(self):
        return self.sr[-1][1] if self.sr else []

    @property
    def body(self):
        return b''.join(c for c in self.chunks if isinstance(c, bytes))

    def header(self, name, default=None):
        for k, v in self.headers:
            if k.lower() == name.lower():
                return v
        return default

    def header_all(self, name):
        return [v for k, v in self.headers if k.lower() == name.lower()]

    def key(self):
        return (self.status, tuple(sorted(self.headers)), self.body)

    def brief(self):
        b = self.body
        return 'status=%r headers=%r body=%r%s%s' % (
            self.status, self.headers, b[:300], ' escaped=%r' % self.escaped if self.escaped else '',
            ' iter_exc=%r' % self.iter_exc if self.iter_exc else '')


def call(app, env, max_chunks=100000, iterate=True, hook=None):
    """Serve one request as a WSGI server would."""
    res = Result()
    for _ in steps(app, env, res, max_chunks, iterate, hook):
        pass
    return res


def steps(app, env, res, max_chunks=100000, iterate=True, hook=None):
    """The same in pieces: a generator that stops after the call of the application and after every chunk of the body.
    hook(name) is called from within start_response."""
    def start_response(status, headers, exc_info=None):
        if res.sr and not exc_info:
            res.problems.append('start_response called twice without exc_info')
        # a list handed over belongs to the server: snapshot it
        res.sr.append((status, list(headers) if isinstance(headers, list) else headers, exc_info is not None))
        if not isinstance(headers, list):
            res.problems.append('header list is %s, not list' % type(headers).__name__)
        if hook is not None:
            hook('start_response')

        def write(data):
            res.chunks.append(data)
        return write

    try:
        it = app(env, start_response)
    except Exception as e:      # anything but KeyboardInterrupt/SystemExit/Hang
        res.escaped = e
        return
    res.returned = it
    yield 'called'
    try:
        if iterate:
            try:
                n = 0
                for c in it:
                    if not res.sr:
                        res.problems.append('body chunk before start_response')
                    if type(c) is not bytes:
                        res.problems.append('body chunk of type %s' % type(c).__name__)
                    res.chunks.append(c)
                    n += 1
                    if n > max_chunks:
                        res.problems.append('endless body')
                        break
                    yield 'chunk'
            except Exception as e:
                res.iter_exc = e
    finally:
        close = getattr(it, 'close', None)
        if close is not None:
            res.closed += 1
            try:
                close()
            except Exception as e:
                res.close_exc = e
    if not res.sr:
        res.problems.append('start_response never called')
    elif len(res.sr) > 1:
        res.problems.append('start_response called %d times' % len(res.sr))


def validate(res):
    """Problems of one recorded exchange against PEP 3333 (and RFC 7230 field syntax)."""
    p = list(res.problems)
    if res.escaped is not None:
        p.append('exception escaped to the server: %r' % (res.escaped,))
        return p
    for status, headers, _ in res.sr[-1:]:
        if type(status) is not str:
            p.append('status is %s' % type(status).__name__)
        else:
            if not STATUS_RE.fullmatch(status):
                p.append('malformed status line %r' % status)
            try:
                status.encode('latin1')
            except UnicodeError:
                p.append('status line not latin-1: %r' % status)
        p.extend(validate_headers(headers))
    return p


def validate_headers(headers):
    p = []
    if not isinstance(headers, list):
        return ['header list is not a list']
    for h in headers:
        if type(h) is not tuple or len(h) != 2:
            p.append('header item %r' % (h,))
            continue
        k, v = h
        if type(k) is not str or not TOKEN_RE.fullmatch(k):
            p.append('bad header name %r' % (k,))
        elif k.lower() == 'status':
            p.append('Status header')
        if type(v) is not str:
            p.append('header value of type %s: %r' % (type(v).__name__, h))
            continue
        if re.search(r'[\r\n\0]', v):
            p.append('control character in header %r' % (h,))
        try:
            v.encode('latin1')
        except UnicodeError:
            p.append('header value not latin-1 %r' % (h,))
    return p


def fresh_app(config=None):
    import ombott
    return ombott.Ombott(config)


def errors_text(env):
    e = env.get('wsgi.errors')
    return e.getvalue() if hasattr(e, 'getvalue') else ''


def spooled(body):
    """Is the body kept in a file? Asking must not change it (a spooled file rolls over when it is asked for its descriptor)."""
    if getattr(body, '_rolled', True) is False:
        return False
    try:
        body.fileno()
        return True
    except Exception:
        return False
