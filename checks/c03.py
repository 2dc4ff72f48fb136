"""C03: every request gets exactly one well-formed WSGI response, whatever handler, hooks and error handlers do."""
import re

from vlib import autodict as AD
from vlib import core
from vlib import wsgi as W

W.NOISE = True
W.AMBIENT = True
PID = 'C03'
LEVEL = 'exploration'
RULE = ('a case is a program (handler outcome with nested responses, hooks with their failures, error handlers, status, charset), a request (method, path, '
        'file_wrapper, Accept) and a server behaviour (reads everything or stops early); non-trivial unless the outcome is a plain str without hooks')
REQUIRED = ('status_2xx', 'status_404', 'status_405', 'status_500', 'status_1xx', 'status_204', 'status_304', 'head_requests', 'lower_case_head', 'closes_judged', 'closed_on_head',
            'closed_on_early_stop', 'closed_after_late_failure', 'generators_finished', 'framework_content_length', 'hook_traces', 'failing_before_hook',
            'failing_after_hook', 'before_hook_rewrites_path', 'custom_error_handlers', 'failing_error_handler', 'file_wrapper_used', 'file_without_wrapper',
            'exact_bodies', 'nested_responses', 'malformed_status', 'unencodable', 'unsendable_header', 'partial_404_hook', 'route_hook_failure', 'handler_exceptions',
            'first_next_exceptions', 'endless_error_handler', 'close_raises', 'self_removing_hooks', 'unsupported_items_closed',
            'crowds_of_hooks')
ASSUMPTIONS = ['exceptions are Exception subclasses (KeyboardInterrupt, SystemExit, MemoryError and other BaseExceptions are let through by design)',
               'streams of one kind: str items or bytes items, not a mixture; file-likes are binary',
               'not specified, hence only checked for well-formedness: the status after an HTTP response raised by an after-request hook or by an error handler, '
               'after-hooks behind a failing after-hook, how often an iterable without output is closed (at most once)',
               'an unsendable status (malformed line) may be rejected (500) or cleaned up']


class Boom(Exception):
    pass


class Unprintable(Exception):
    def __repr__(self):
        raise ValueError('no repr')
    __str__ = __repr__


class Odd(Exception):
    status_code = 200
    body = 'no'

    def __bool__(self):
        return False


def make_exc(name):
    if name == 'recursion':
        def f():
            return f()
        f()
    if name == 'key':
        raise KeyError('<b>%s</b>{0}{e}')
    if name == 'zero':
        1 / 0
    if name == 'stop':
        raise StopIteration('x')
    if name == 'surrogate':
        raise ValueError('\udc80\ud800')
    if name == 'unprintable':
        raise Unprintable()
    if name == 'odd':
        raise Odd('odd')
    if name == 'os':
        raise OSError(2, 'gone', '/x')
    if name == 'chained':
        try:
            {}['a']
        except KeyError as e:
            raise Boom('b') from e
    if name == 'unicode':
        b'\xff'.decode('utf8')
    if name == 'attr':
        raise AttributeError('AttributeError in handler')
    if name == 'type':
        raise TypeError('handler() got an unexpected keyword')
    raise Boom(name)


EXCS = ['recursion', 'key', 'zero', 'surrogate', 'unprintable', 'odd', 'os', 'chained', 'unicode', 'attr', 'type', 'plain', 'stop']


# ---------------------------------------------------------------- runtime objects with counters
class Rec:
    """What one handler iterable saw."""

    def __init__(self, kind):
        self.kind, self.output, self.closes, self.gen, self.final = kind, 0, 0, None, False


class Iter:
    def __init__(self, rec, items, late, close_raises):
        self.rec, self.items, self.late, self.close_raises, self.k = rec, items, late, close_raises, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.k < len(self.items):
            x = self.items[self.k]
            self.k += 1
            if x:
                self.rec.output += 1
            return x
        if self.late:
            raise Boom('late')
        raise StopIteration

    def close(self):
        self.rec.closes += 1
        if self.close_raises:
            raise Boom('close')


class SepIter:
    """iter() gives another object; close() sits on the outer one."""

    def __init__(self, rec, items, late, close_raises):
        self.inner, self.rec, self.close_raises = Iter(rec, items, late, False), rec, close_raises

    def __iter__(self):
        return (x for x in self.inner)

    def close(self):
        self.rec.closes += 1
        if self.close_raises:
            raise Boom('close')


class NoClose:
    def __init__(self, rec, items, late):
        self.inner = Iter(rec, items, late, False)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.inner)


class FileR:
    def __init__(self, rec, data, step):
        self.rec, self.data, self.step, self.pos = rec, data, step, 0

    def read(self, n=-1):
        n = len(self.data) if n is None or n < 0 else n
        got = self.data[self.pos:self.pos + min(n, self.step)]
        self.pos += len(got)
        if got:
            self.rec.output += 1
        return got


class FileRC(FileR):
    def close(self):
        self.rec.closes += 1


class FileRCI(FileRC):
    def __iter__(self):
        return iter(self.data.splitlines(True))


class FileRI(FileR):
    def __iter__(self):
        return iter(self.data.splitlines(True))


class ServerFileWrapper:
    def __init__(self, f, block=8192):
        self.f, self.block = f, block
        if hasattr(f, 'close'):
            self.close = f.close

    def __iter__(self):
        while True:
            x = self.f.read(self.block)
            if not x:
                return
            yield x


def build(spec, recs):
    """Turn an outcome spec into what the handler returns (or raise)."""
    import ombott
    kind = spec[0]
    if kind in ('str', 'bytes'):
        return spec[1]
    if kind == 'empty':
        return {'s': '', 'b': b'', 'n': None, 'l': [], 't': (), 'f': False, 'z': 0}[spec[1]]
    if kind == 'list':
        return list(spec[1])
    if kind == 'tuple':
        return tuple(spec[1])
    if kind == 'iter':
        _, style, items, late, close_raises = spec
        rec = Rec(style)
        recs.append(rec)
        if style == 'native':
            def g():
                try:
                    for x in items:
                        if x:
                            rec.output += 1
                        yield x
                    if late:
                        raise Boom('late')
                finally:
                    rec.closes += 1
            rec.gen = g()
            return rec.gen
        if style == 'self':
            return Iter(rec, items, late, close_raises)
        if style == 'sep':
            return SepIter(rec, items, late, close_raises)
        if style == 'map':
            return map(lambda x: x, Iter(rec, items, late, False))
        return NoClose(rec, items, late)
    if kind == 'file':
        _, style, data, step = spec
        rec = Rec('file-' + style)
        recs.append(rec)
        return {'r': FileR, 'rc': FileRC, 'rci': FileRCI, 'ri': FileRI}[style](rec, data, step)
    if kind == 'resp':
        _, status, headers, body = spec
        return ombott.HTTPResponse(build(body, recs), status, dict(headers))
    if kind == 'err':
        _, status, text = spec
        return ombott.HTTPError(status, text)
    if kind == 'raise':
        raise build(spec[1], recs)
    if kind == 'abort':
        ombott.abort(spec[1], spec[2])
    if kind == 'exc':
        make_exc(spec[1])
    if kind == 'genfirst':
        _, empties, inner = spec

        def g():
            for e in empties:
                yield e
            yield build(inner, recs)
            yield 'ignored'
        return g()
    if kind == 'genraise':
        _, empties, inner = spec

        def g():
            for e in empties:
                yield e
            build(inner, recs)
            raise AssertionError
            yield
        return g()
    if kind == 'iterraise':
        class I:
            def __iter__(self):
                make_exc(spec[1])
        return I()
    if kind == 'unsupported':
        if spec[1] in ('iterobj', 'genobj'):
            rec = Rec('self' if spec[1] == 'iterobj' else 'native')
            recs.append(rec)
            if spec[1] == 'iterobj':
                return Iter(rec, ['', object()], False, False)

            def g():
                try:
                    rec.output += 1
                    yield 5
                finally:
                    rec.closes += 1
            rec.gen = g()
            return rec.gen
        return {'int': 5, 'obj': object(), 'float': 1.5, 'true': True, 'ints': [1, 2], 'gen': (x for x in [object()]), 'cls': Boom, 'fn': len, 'exc': Boom('returned'),
                'nested': [['a']], 'ba': bytearray(b'abc')}[spec[1]]
    raise AssertionError(spec)


# ---------------------------------------------------------------- the model
DEFAULT_CT = 'text/html; charset=UTF-8'


class Exp:
    def __init__(self, codes, body=None, late=False, prefix=None, line=None):
        self.codes, self.body, self.late, self.line = set(codes), body, late, line


def charset_of(ct):
    return ct.split('charset=')[-1].split(';')[0].strip() if 'charset=' in ct else 'UTF-8'


def model(spec, status, ct, eh, wrapper, depth=0):
    """Expected outcome of casting `spec` while the response has `status` and content type `ct`."""
    if depth > 60:
        return Exp({500})
    kind = spec[0]
    rec = lambda s, st, c: model(s, st, c, eh, wrapper, depth + 1)
    err = lambda st: errpath(st, eh, wrapper, depth + 1)

    def text(items, late=False):
        items = list(items)
        while items and not items[0]:
            items.pop(0)
        if not items:
            if late:
                return err(500)
            return Exp({status[0]}, b'', line=status[1])
        if isinstance(items[0], bytes):
            return Exp({status[0]}, b''.join(items), late, line=status[1])
        try:
            enc = [x.encode(charset_of(ct)) for x in items]
        except (LookupError, UnicodeError):
            try:
                items[0].encode(charset_of(ct))
            except (LookupError, UnicodeError):
                e = err(500)
                e.codes.add(500)
                e.body = e.line = e.late = None
                return e
            return Exp({status[0]}, None, True, line=status[1])       # fails behind the first chunk
        return Exp({status[0]}, b''.join(enc), late, line=status[1])
    if kind in ('str', 'bytes'):
        return text([spec[1]])
    if kind == 'empty':
        return text([])
    if kind in ('list', 'tuple'):
        return text(spec[1])
    if kind == 'iter':
        return text(spec[2], spec[3])
    if kind == 'file':
        return Exp({status[0]}, spec[2], line=status[1])
    if kind == 'resp':
        # the body of a response object is built with it: an exception there is one of the handler
        c = dict(spec[2]).get('Content-Type', DEFAULT_CT)
        return rec(spec[3], st_of(spec[1], 200), c)
    if kind in ('err', 'abort'):
        return err(st_of(spec[1], 500))
    if kind == 'raise':
        return rec(spec[1], status, ct)
    if kind == 'genfirst':
        return rec(spec[2], status, ct)
    if kind == 'genraise':
        if spec[2][0] == 'raise':
            return rec(spec[2][1], status, ct)
        if spec[2] == ('exc', 'stop'):
            pass
        return err((500, None))
    if kind in ('exc', 'iterraise', 'unsupported'):
        return err((500, None))
    raise AssertionError(spec)


def st_of(status, default):
    if status is None:
        return (default, None)
    if isinstance(status, int):
        return (status, None)
    return (int(status[:3]), status)


def errpath(st, eh, wrapper, depth):
    if isinstance(st, int):
        st = (st, None)
    h = eh.get(st[0])
    if depth > 60:
        return Exp({500})
    if h is None:
        return Exp({st[0]}, None, line=st[1])
    if h[0] == 'raises':
        inner = h[1]
        if inner[0] == 'exc':
            return Exp({500})
        return Exp({500} | model(inner, (200, None), DEFAULT_CT, eh, wrapper, depth + 1).codes)
    if h[0] == 'same':
        return Exp({500})
    return model(h, st, DEFAULT_CT, eh, wrapper, depth + 1)


def has(spec, kinds):
    if isinstance(spec, tuple):
        return bool(spec) and spec[0] in kinds or any(has(x, kinds) for x in spec)
    return False


# ---------------------------------------------------------------- one case
def run_case(ctx, case):
    (outcome, status, ctype, route, method, path, before, after, handlers, wrapper, accept, debug, stop, route_hook, bad_header) = case
    import ombott
    app = W.fresh_app(dict(debug=debug))
    trace = []
    recs = []
    eh = dict(handlers)

    def handler(**kw):
        trace.append('handler')
        if status is not None:
            app.response.status = status
        if ctype is not None:
            app.response.content_type = ctype
        if bad_header is not None:
            # reaches the header list without the guards of the setters
            app.response.headers.dict['X-Bad'] = bad_header
        return build(outcome, recs)

    def hook(name, what, hooked_to):
        def h():
            trace.append(name)
            if what == 'rewrite':
                app.request['PATH_INFO'] = '/x'
            elif what == 'once':
                app.remove_hook(hooked_to, h)
            elif what == 'readpath':
                app.request.path, app.request.url, app.request.query
            elif isinstance(what, tuple):
                r = build(what, recs)
                assert r is not None
                return r
        return h
    if route in ('found', 'hooked'):
        app.route('/x', 'ANY', handler)
    elif route == '405':
        app.route('/x', 'BREW2', handler)
    elif route == 'partial':
        app.error(404, '/x')(lambda hook_route, params: handler())
    if route == 'hooked':
        def rh(p):
            trace.append('route-hook')
            if route_hook:
                build(route_hook, recs)
        app.on_route('/x', rh)
    for i, b in enumerate(before):
        (app.add_hook if i % 2 else app.on)('before_request', hook('b%d' % i, b, 'before_request'))
    for i, a in enumerate(after):
        h = hook('a%d' % i, a, 'after_request')
        if i % 2:
            app.add_hook('after_request', h)
        else:
            app.on('after_request')(h)
    for code, h in eh.items():
        def mk(h):
            def f(e):
                trace.append('eh%d' % e.status_code)
                if h[0] == 'raises':
                    build(h[1] if h[1][0] == 'exc' else ('raise', h[1]), recs)
                if h[0] == 'same':
                    return e
                return build(h, recs)
            return f
        app.error(code)(mk(h))

    env = W.environ(method, path or "")
    if path is None:
        del env['PATH_INFO']
    if wrapper:
        env['wsgi.file_wrapper'] = ServerFileWrapper
    if accept:
        env['HTTP_ACCEPT'] = accept
    sr = []

    res = W.Result()

    def start_response(st, headers, exc_info=None):
        sr.append((st, headers, exc_info))
        res.sr.append((st, list(headers) if isinstance(headers, list) else headers, exc_info is not None))
        if not isinstance(headers, list):
            res.problems.append('header list is %s' % type(headers).__name__)
        return res.chunks.append
    stopped = False
    close_exc = None
    it = None
    try:
        it = app(env, start_response)
    except Exception as e:
        res.escaped = e
    else:
        try:
            n = 0
            i = iter(it)
            while True:
                if stop is not None and n >= stop:
                    stopped = True
                    break
                try:
                    c = next(i)
                except StopIteration:
                    break
                if not res.sr:
                    res.problems.append('body before start_response')
                res.chunks.append(c)
                n += 1
        except Exception as e:
            res.iter_exc = e
        try:
            if hasattr(it, 'close'):
                it.close()
        except Exception as e:
            close_exc = e
    if len(sr) != 1:
        res.problems.append('start_response called %d times' % len(sr))
    for c in res.chunks:
        if type(c) is not bytes:
            res.problems.append('chunk of type %s' % type(c).__name__)
            break

    plain = outcome[0] == 'str' and not before and not after and not handlers
    ctx.seen(case, not plain, '%s/%s' % (outcome[0], route))
    info = '%s %s outcome=%.300r status=%r route=%s before=%r after=%r eh=%.200r -> %s trace=%r\n%s' % (
        method, path, outcome, status, route, before, after, handlers, res.brief()[:400], trace, W.errors_text(env)[-700:])
    problems = W.validate(res)
    if problems:
        kind = re.sub(r"[^a-z ]+.*", '', problems[0].replace('exception escaped to the server', 'escaped'))[:50]
        ctx.violation('malformed/' + kind.strip().replace(' ', '-'), '; '.join(problems) + '\n' + info, case)
        return
    code = res.code
    head = method.upper() == 'HEAD'

    # ---- expected outcome
    rewritten = 'rewrite' in before
    failed = None
    for i, b in enumerate(before):
        if isinstance(b, tuple) and has(b, ('exc', 'raise', 'abort')):
            failed = i
            break
        if b == 'rewrite':
            pass
    eff_rewritten = 'rewrite' in (before if failed is None else before[:failed])
    hit = path == '/x' or eff_rewritten
    if route == 'partial' and path is not None:
        hit = hit or ('/' + path.lstrip('/')).startswith('/x')      # the hook is one for a prefix
    runs = False
    st0 = (200, None)
    if failed is not None:
        ctx.obs['failing_before_hook'] += 1
        exp = model(before[failed], st0, DEFAULT_CT, eh, wrapper)
    elif not hit or route == 'none':
        exp = errpath(404, eh, wrapper, 0)
    elif route == '405':
        exp = errpath(405, eh, wrapper, 0)
    elif route == 'hooked' and route_hook:
        ctx.obs['route_hook_failure'] += 1
        exp = model(route_hook, st0, DEFAULT_CT, eh, wrapper)
    else:
        runs = True
        if route == 'partial':
            ctx.obs['partial_404_hook'] += 1
        if status is not None and not GOOD_STATUS(status):
            exp = errpath(500, eh, wrapper, 0)
            ctx.obs['malformed_status'] += 1
            exp.codes |= {500}
            exp.body = exp.line = None
            m = re.match(r'\s*([1-9]\d\d)\b', status) if isinstance(status, str) else None
            if m:
                exp.codes |= {int(m.group(1))} | model(outcome, (int(m.group(1)), None), ctype or DEFAULT_CT, eh, wrapper).codes
        else:
            exp = model(outcome, st_of(status, 200), ctype or DEFAULT_CT, eh, wrapper)
        if has(outcome, ('exc',)):
            ctx.obs['handler_exceptions'] += 1
        if has(outcome, ('genraise', 'iterraise')):
            ctx.obs['first_next_exceptions'] += 1
        if has(outcome, ('resp',)) and has(outcome[1:], ('resp', 'err')):
            ctx.obs['nested_responses'] += 1
        if bad_header is not None:
            ctx.obs['unsendable_header'] += 1
            exp.codes |= {500}
            exp.body = exp.line = exp.late = None
    after_failed = None
    for k, a in enumerate(reversed(after)):
        if isinstance(a, tuple) and has(a, ('exc', 'raise', 'abort')):
            after_failed = k
            break
    if after_failed is not None:
        ctx.obs['failing_after_hook'] += 1
        a = after[::-1][after_failed]
        if a[0] == 'exc':
            exp = errpath(500, eh, wrapper, 0)
        else:
            exp = None
    if any(isinstance(h, tuple) and h[0] == 'raises' for _, h in handlers):
        ctx.obs['failing_error_handler'] += 1
    if any(h[0] == 'same' for _, h in handlers):
        ctx.obs['endless_error_handler'] += 1
    if any(t.startswith('eh') for t in trace):
        ctx.obs['custom_error_handlers'] += 1
    close_raises = any(s[4] for s in specs_of((outcome, before, after, handlers, route_hook)))
    if close_raises:
        ctx.obs['close_raises'] += 1
        if exp is not None:
            exp.codes |= {500}
            exp.line = None
            if code == 500:
                exp.body, exp.late = None, None

    # ---- hooks
    want = ['b%d' % i for i in range(len(before))][:None if failed is None else failed + 1]
    got = [t for t in trace if not t.startswith('eh')]
    if failed is None and hit and route == 'hooked':
        want.append('route-hook')
    if runs:
        want.append('handler')
    wa = ['a%d' % i for i in range(len(after))][::-1]
    if before or after:
        ctx.obs['hook_traces'] += 1
        ctx.obs['crowds_of_hooks'] += len(before) > 40 or len(after) > 40
        if 'once' in before + after:
            ctx.obs['self_removing_hooks'] += 1
    if eff_rewritten and path != '/x':
        ctx.obs['before_hook_rewrites_path'] += 1
    if after_failed is None:
        ok = got == want + wa
    else:
        m = len(want) + after_failed + 1
        rest = got[m:]
        ok = got[:m] == (want + wa)[:m] and [x for x in wa[after_failed + 1:] if x in rest] == rest
    if not ok:
        ctx.violation('hooks', 'expected %r (then %r) %s' % (want, wa, info), case)

    # ---- status and body
    nobody = head or 100 <= code < 200 or code in (204, 304)
    if nobody and res.body:
        ctx.violation('body-on-%s' % ('head' if head else code), info, case)
    if head:
        ctx.obs['head_requests'] += 1
        if method != 'HEAD':
            ctx.obs['lower_case_head'] += 1
    ctx.obs['status_%s' % (code if code in (204, 304, 404, 405, 500) else '%dxx' % (code // 100))] += 1
    if exp is not None:
        if code not in exp.codes:
            ctx.violation('status', 'expected %r: %s' % (sorted(exp.codes), info), case)
            return
        if exp.line is not None and code == int(exp.line[:3]) and res.status != exp.line.strip().encode('utf8').decode('latin1'):
            ctx.violation('status-line', 'expected %r: %s' % (exp.line, info), case)
        if exp.late and not nobody and not stopped:
            if res.iter_exc is None:
                ctx.violation('late-failure-swallowed', info, case)
            elif exp.body is not None and res.body != exp.body:
                ctx.violation('body', 'expected %.200r %s' % (exp.body, info), case)
        elif res.iter_exc is not None and exp.late is not None:
            ctx.violation('escapes-while-iterating', repr(res.iter_exc) + ' ' + info, case)
        elif exp.body is not None and not nobody and len(exp.codes) == 1:
            ctx.obs['exact_bodies'] += 1
            if (res.body != exp.body) if not stopped else not exp.body.startswith(res.body):
                ctx.violation('body', 'expected %.200r %s' % (exp.body, info), case)
    if ctype and ('latin' in ctype or 'ascii' in ctype or 'bogus' in ctype):
        ctx.obs['unencodable'] += 1
    cl = res.header_all('Content-Length')
    if cl and not nobody and not stopped and res.iter_exc is None and not has(outcome, ('CLSET',)):
        ctx.obs['framework_content_length'] += 1
        if len(cl) != 1 or not cl[0].isdigit() or int(cl[0]) != len(res.body):
            ctx.violation('content-length', 'Content-Length %r, %d bytes %s' % (cl, len(res.body), info), case)

    # ---- closing
    if wrapper and has(outcome, ('file',)):
        ctx.obs['file_wrapper_used'] += 1
    elif has(outcome, ('file',)):
        ctx.obs['file_without_wrapper'] += 1
    for r in recs:
        closable = r.kind in ('self', 'sep', 'native', 'file-rc', 'file-rci')
        if not closable:
            continue
        if r.closes > 1:
            ctx.violation('closed-twice/' + r.kind, '%d times, %d items of output %s' % (r.closes, r.output, info), case)
        elif r.output and not r.closes:
            ctx.violation('not-closed/' + r.kind, '%d items of output %s' % (r.output, info), case)
        elif r.kind.startswith('file') and not r.closes and outcome[0] == 'file' and runs and after_failed is None and not bad_header:
            ctx.violation('not-closed/' + r.kind, 'the returned file %s' % info, case)
        if r.output:
            ctx.obs['closes_judged'] += 1
            if outcome[0] == 'unsupported':
                ctx.obs['unsupported_items_closed'] += 1
            if head:
                ctx.obs['closed_on_head'] += 1
            if stopped:
                ctx.obs['closed_on_early_stop'] += 1
            if res.iter_exc is not None:
                ctx.obs['closed_after_late_failure'] += 1
            if r.gen is not None:
                if r.gen.gi_frame is not None:
                    ctx.violation('generator-not-closed', info, case)
                ctx.obs['generators_finished'] += 1


def specs_of(spec):
    if isinstance(spec, tuple):
        if spec and spec[0] == 'iter':
            yield spec
        for x in spec:
            yield from specs_of(x)


def GOOD_STATUS(s):
    if isinstance(s, int):
        return 100 <= s <= 999 and not isinstance(s, bool)
    return isinstance(s, str) and bool(re.fullmatch(r'[1-9][0-9][0-9] +[^\x00-\x1f\x7f]*[^\s\x00-\x1f\x7f][^\x00-\x1f\x7f]*', s.strip(' '))) and encodable(s)


def encodable(s):
    try:
        s.encode('utf8')
    except UnicodeError:
        return False
    return True


# ---------------------------------------------------------------- generation
STATUSES = [200, 200, 200, 201, 204, 304, 100, 101, 102, 103, 199, 205, 206, 299, 300, 302, 400, 404, 405, 413, 418, 500, 503, 599, 700, 999, '200 OK', '404 Brain not found',
            '299 \xe9', '299 \u65e5\u672c', '204 Nope', '102 Wait', '304 N M', '500 E  F', '200  Two']
BAD = ['404 ', ' 404', '+200 OK', '20 OK', '2000 OK', '2_0 OK', '\u0662\u0660\u0660 OK', '200 OK\r\nX-Evil: 1', '200 O\nK', '200\tOK', '200 \x00', 'OK 200', '', ' ', '099 low', '-12 x', '200\r\n OK',
       '200 \x7f', '\u00b2\u00b2\u00b2 x', '200 \r', '99 x', 99, 1000, 0, -1, True, '200.5 x', '0x1 y', '1e2 x', '200 \ud800', '200 \x1b[0m', '200\u2003OK x']
TEXTS = ['hello', 'x', '<b>&', 'h\xe9llo', '\u65e5\u672c', '\U0001f600', 'a' * 5000, '\r\n', ' ', '{e.body}', '\x00', '0']
CTS = [None, None, None, None, 'text/plain', 'text/plain; charset=latin1', 'text/html; charset=ascii', 'text/html; charset=bogus', 'application/json; charset=utf-16', 'text/html;charset=utf8; x=y']


def a_text(rng):
    if rng.random() < .95:
        return rng.choice(TEXTS)
    if rng.random() < .6:
        w = AD.word(rng)
        return w + ' ' if w.isalpha() else w         # never like the name of an outcome
    return rng.choice(['a', '\xe9', 'ab\n'])[:3] * AD.number(rng, 5000 if rng.random() < .97 else 200000)


def a_status(rng):
    if rng.random() < .95:
        return rng.choice(STATUSES)
    n = AD.number(rng, 999, 100)
    return n if rng.random() < .6 else '%d %s' % (n, ''.join(c for c in AD.word(rng) if c.isprintable()).strip() or 'x')


def many(rng):
    return rng.choice([20, 70, 140, 600, 1100]) if rng.random() < .5 else AD.number(rng, 1500)


def rnd_items(rng, nonempty=False):
    tp = rng.choice([str, bytes])
    items = [rng.choice(['', ''] if tp is str else [b'', b'']) if rng.random() < .25 else (t if tp is str else t.encode())
             for t in (a_text(rng) for _ in range(rng.randrange(0, 5) if rng.random() < .985 else many(rng)))]
    lead = [rng.choice(['', b'', None] if rng.random() < .1 else ['' if tp is str else b'']) for _ in range(rng.randrange(0, 3) if rng.random() < .95 else many(rng))]
    items = lead + items
    # an empty item behind the first chunk has the type of the stream
    return tuple(items)


def rnd_resp(rng, depth):
    r = rng.random()
    st = rng.choice([a_status(rng)] * 9 + [None] * 1)
    if r < .45:
        hd = []
        if rng.random() < .3:
            hd.append(('Content-Type', rng.choice([c for c in CTS if c])))
        if rng.random() < .3:
            hd.append(('X-R', 'v'))
        return ('resp', st, tuple(hd), rnd_outcome(rng, depth + 1, body=True))
    if r < .9:
        return ('err', st, rng.choice([a_text(rng), a_text(rng), a_text(rng), '', None]))
    return ('resp', st, (), ('err', a_status(rng), 'inner'))


def rnd_outcome(rng, depth=0, body=False):
    r = rng.random()
    if depth > 3:
        r *= .5
    if r < .12:
        return ('str', a_text(rng))
    if r < .2:
        return ('bytes', a_text(rng).encode())
    if r < .26:
        return ('empty', rng.choice('sbnltfz'))
    if r < .32:
        return (rng.choice(['list', 'tuple']), rnd_items(rng))
    if r < .46:
        style = rng.choice(['self', 'self', 'sep', 'native', 'native', 'noclose', 'map'])
        late = rng.random() < .2
        return ('iter', style, rnd_items(rng), late, style in ('self', 'sep') and rng.random() < .1)
    if r < .56:
        return ('file', rng.choice(['r', 'rc', 'rc', 'rci', 'ri']), rng.choice([b'', b'file data\nline 2\n' * 3, b'x' * 200000]), rng.choice([3, 1000, 1 << 20]) if rng.random() < .9 else 1 << 17)
    if body:
        if r < .75:
            return rnd_resp(rng, depth)
        return ('str', a_text(rng))
    if r < .66:
        return rnd_resp(rng, depth)
    if r < .76:
        return ('raise', rnd_resp(rng, depth))
    if r < .79:
        return ('abort', a_status(rng), a_text(rng))
    if r < .85:
        return ('exc', rng.choice(EXCS))
    em = tuple(rng.choice(['', b'']) for _ in range(rng.randrange(3) if rng.random() < .9 else many(rng)))
    if r < .9:
        return ('genfirst', em, rnd_resp(rng, depth))
    if r < .93:
        return ('genraise', em, ('exc', rng.choice([e for e in EXCS if e != 'stop'])))
    if r < .96:
        return ('genraise', em, ('raise', rnd_resp(rng, depth)))
    if r < .97:
        return ('iterraise', rng.choice([e for e in EXCS if e != 'stop']))
    return ('unsupported', rng.choice(['int', 'obj', 'float', 'true', 'ints', 'gen', 'cls', 'fn', 'exc', 'nested', 'ba', 'iterobj', 'genobj']))


def small_file(spec):
    """One byte files read three bytes at a time are slow: keep the number of reads small."""
    if isinstance(spec, tuple):
        if spec and spec[0] == 'file' and len(spec[2]) > 1000 and spec[3] < 1000:
            return ('file', spec[1], spec[2], 70000)
        return tuple(small_file(x) for x in spec)
    return spec


def rnd_hook(rng):
    r = rng.random()
    if r < .55:
        return 'ok'
    if r < .62:
        return 'readpath'
    if r < .7:
        return 'once'
    if r < .85:
        return ('exc', rng.choice(EXCS))
    return ('raise', rnd_resp(rng, 3))


def rnd_case(rng):
    outcome = small_file(rnd_outcome(rng))
    status = a_status(rng) if rng.random() < .35 else rng.choice(BAD) if rng.random() < .06 else None
    ct = rng.choice(CTS)
    if rng.random() < .03:
        w = ''.join(c for c in AD.word(rng) if c.isascii() and c.isalnum()) or 'x'
        ct = rng.choice(['text/' + w, 'application/' + w, 'text/plain; charset=utf8; ' + w + '=1', 'text/' + w + '; charset=UTF-8'])
    route = rng.choice(['found'] * 9 + ['405', '405', 'none', 'partial', 'hooked', 'hooked'])
    method = rng.choice(['GET', 'GET', 'GET', 'HEAD', 'HEAD', 'POST', 'PUT', 'DELETE', 'OPTIONS', 'PATCH', 'head', 'Head', 'get', 'BREW'])
    path = rng.choice(['/x'] * 8 + ['/no', '/', '/http://[', '//x//y', '/%', '/{0}{e}', '/a?b#c', '/\u65e5', '/;x', '', '/\x01', None])
    if rng.random() < .03:
        path = '/' + AD.word(rng)
    if rng.random() < .02:
        method = re.sub('[^A-Za-z-]', '', AD.word(rng)) or 'X'
    before = [rnd_hook(rng) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    if rng.random() < .15:
        before.insert(rng.randrange(len(before) + 1), 'rewrite')
        path = rng.choice(['/old', path])
    after = [rnd_hook(rng) if rng.random() < .5 else 'ok' for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    handlers = []
    if rng.random() < .4:
        for code in rng.sample([404, 405, 500, 400, 418, 204, 304, 503, AD.number(rng, 999, 600)], rng.randrange(1, 4)):
            r = rng.random()
            if r < .12:
                h = ('raises', ('exc', rng.choice(EXCS)))
            elif r < .2:
                h = ('raises', rnd_resp(rng, 3))
            elif r < .26:
                h = ('same',)
            else:
                h = small_file(rnd_outcome(rng, 1))
                if has(h, ('exc', 'raise', 'abort', 'genraise')):
                    h = rnd_resp(rng, 3)
            handlers.append((code, h))
    if rng.random() < .012:
        # an application of real size: crowds of hooks and error handlers, deep nests, long streams
        k = int(10 ** rng.uniform(1, 2.6))
        r = rng.randrange(5)
        if r == 0:
            before = ['ok'] * rng.randrange(k) + before + [rng.choice(['ok', 'once']) for _ in range(k)]
        elif r == 1:
            after = [rng.choice(['ok', 'ok', 'once']) for _ in range(k)] + after + ['ok'] * rng.randrange(k)
        elif r == 2:
            handlers += [(c, ('str', 'page %d' % c)) for c in rng.sample(range(400, 1000), k) if c not in dict(handlers)]
        elif r == 3:
            for j in range(k % 35):
                outcome = ('resp', a_status(rng), (), outcome) if not has(outcome, ('exc', 'genraise', 'unsupported', 'raise', 'abort', 'genfirst', 'iterraise')) else outcome
        else:
            items = ['%d\n' % j for j in range(int(10 ** rng.uniform(2.5, 4.8)))]
            outcome = ('iter', rng.choice(['self', 'native', 'sep']), tuple([x.encode() for x in items] if rng.random() < .5 else items), rng.random() < .2, False)
    stop = rng.choice([None, None, None, None, 0, 1, 2])
    rh = None
    if route == 'hooked' and rng.random() < .5:
        rh = rng.choice([('exc', rng.choice(EXCS)), ('raise', rnd_resp(rng, 3))])
    bad = None
    if rng.random() < .04:
        bad = rng.choice(['\ud800', 5, None, b'x', ['\udfff'], [1]])
        if bad is None:
            bad = 7.5
    return (outcome, status, ct, route, method, path, tuple(before), tuple(after), tuple(handlers), rng.random() < .4,
            rng.choice([None, None, None, 'application/json', 'text/html']) if rng.random() < .97 else AD.word(rng), rng.random() < .2, stop, rh, bad)


def shards(ctx):
    return [('enum', i) for i in range(2)] + [('rand', i) for i in range(ctx.scale(6, 22))]


BASE = [('str', 'h\xe9'), ('bytes', b'by'), ('empty', 'n'), ('list', ('', 'a', 'b')), ('list', (b'', b'a')), ('iter', 'self', ('', 'a', 'b'), False, False),
        ('iter', 'native', (b'', b'a', b'b'), False, False), ('iter', 'sep', ('a', 'b'), True, False), ('iter', 'native', (), False, False), ('iter', 'self', ('',), False, False),
        ('file', 'rc', b'0123456789', 4), ('file', 'r', b'0123456789', 4), ('file', 'ri', b'a\nb\n', 4), ('exc', 'plain'), ('exc', 'unprintable'), ('genraise', ('',), ('exc', 'zero')),
        ('unsupported', 'int'), ('unsupported', 'ints'), ('iter', 'self', ('a', 'b'), False, True)]


def run_shard(ctx, shard):
    kind, idx = shard
    rng = ctx.rng
    if kind == 'enum':
        n = 0
        for outcome in BASE:
            for status in (None, 200, 404, 204, 304, 100, 101, 103, 500, 299, '299 \u65e5'):
                for wrap in (None, 'resp', 'raise', 'genfirst', 'genraise'):
                    for method in ('GET', 'HEAD', 'head', 'POST'):
                        for wrapper in (False, True):
                            n += 1
                            if n % 2 != idx:
                                continue
                            o, st = outcome, status
                            if wrap:
                                if has(o, ('exc', 'genraise', 'unsupported')) and wrap != 'resp':
                                    continue
                                if o[0] == 'exc':
                                    continue
                                o = ('resp', status, (), o)
                                st = None
                                if wrap == 'raise':
                                    o = ('raise', o)
                                elif wrap == 'genfirst':
                                    o = ('genfirst', ('',), o)
                                elif wrap == 'genraise':
                                    o = ('genraise', (), ('raise', o))
                            run_case(ctx, (o, st, None, 'found', method, '/x', (), ('ok',), (), wrapper, None, False, None, None, None))
        for bad in BAD:
            for method in ('GET', 'HEAD'):
                run_case(ctx, (('str', 'x'), bad, None, 'found', method, '/x', ('ok',), ('ok',), (), False, None, False, None, None, None))
        for status in range(100, 1000):
            if status % 2 == idx:
                run_case(ctx, (('iter', 'self', ('a',), False, False), status, None, 'found', 'GET', '/x', (), (), (), False, None, False, None, None, None))
                run_case(ctx, (('raise', ('err', status, 'b')), None, None, 'found', 'GET', '/x', (), (), (), False, None, False, None, None, None))
        for bh in (('ok', ('exc', 'plain'), 'ok'), (('raise', ('err', 403, 'no')), 'ok'), ('ok', 'ok', 'ok')):
            for ah in (('ok', 'ok', 'ok'), ('ok', ('exc', 'plain'), 'ok')):
                for route in ('found', '405', 'none', 'partial', 'hooked'):
                    for o in BASE[:2] + BASE[13:15]:
                        run_case(ctx, (o, None, None, route, 'GET', '/x', bh, ah, (), False, None, False, None, None, None))
        return
    for k in range(ctx.scale(9000, 60000)):
        case = rnd_case(rng)
        try:
            with core.watchdog(30):
                run_case(ctx, case)
        except core.Hang:
            ctx.violation('hang', 'no answer after 30 s of CPU time: %.500r' % (case,), case)
