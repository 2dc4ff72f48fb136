"""C14: values with CR, LF or NUL are rejected by every setter; what is emitted is a native, Latin-1 encodable, UTF-8 decodable string, in order."""
import datetime
import email.utils
import itertools
import re
import time

from vlib import autodict as AD
from vlib import core
from vlib import wsgi as W

W.AMBIENT = True
PID = 'C14'
LEVEL = 'exploration'
RULE = ('a case is a response source (app.response, returned/raised HTTPResponse, HTTPError, a copy), a list of setter calls with typed values and a status; '
        'non-trivial if it contains a control character, a non-ASCII text, a repeated name or a 204/304')
SETTERS = ('set', 'append', 'setdefault', 'content_type', 'content_length', 'expires', 'ctor_dict', 'ctor_pairs', 'ctor_kwargs')
REQUIRED = tuple('rejected_' + s for s in SETTERS) + tuple('accepted_' + s for s in SETTERS) + (
    'emitted_values', 'emitted_non_ascii', 'multi_valued', 'withheld_204', 'withheld_304', 'kept_204', 'kept_304', 'cookies_emitted', 'cookie_attributes_rejected',
    'typed_int', 'typed_float', 'typed_bool', 'typed_none', 'typed_sub', 'typed_other', 'redirects', 'default_content_type', 'headerlist_direct', 'dates', 'copies', 'files', 'allow', 'crowds')
ASSUMPTIONS = ['header names are tokens; a list passed to setdefault/update or handed out by the mapping and changed behind its back is not a single-value setter',
               'Content-Type given once (the charset of a multi-valued Content-Type is meaningless)',
               'text with lone surrogates has no UTF-8 form: any answer that does not emit it is accepted',
               'headers written through headers.dict bypass the setters on purpose']

FORBIDDEN = {204: {'content-type', 'content-length'},
             304: {'allow', 'content-encoding', 'content-language', 'content-length', 'content-range', 'content-type', 'content-md5', 'last-modified'}}
KEPT = {'x-a', 'x-b', 'x_c', 'etag', 'vary', 'cache-control', 'www-authenticate', 'link'}
CTL = re.compile('[\r\n\0]')


class Sub(str):
    """Looks clean, prints as something else."""
    text = ''

    def __str__(self):
        return self.text


class SubInt(int):
    text = ''

    def __str__(self):
        return self.text
    __repr__ = __str__


class Obj:
    def __init__(self, t):
        self.t = t

    def __str__(self):
        return self.t
    __repr__ = __str__


def make(v):
    """-> (python value, text or None when only a rejection or anything clean is expected, must be accepted)"""
    k = v[0]
    if k == 's':
        return v[1], v[1], True
    if k == 'i':
        return v[1], str(v[1]), True
    if k in 'fb':
        return v[1], str(v[1]), False
    if k == 'n':
        return None, 'None', False
    if k == 'sub':
        x = Sub('clean')
        x.text = v[1]
        return x, None if CTL.search(v[1]) else v[1], False
    if k == 'subint':
        x = SubInt(5)
        x.text = v[1]
        return x, None if CTL.search(v[1]) else v[1], False
    if k == 'bytes':
        return v[1], None, False
    if k == 'obj':
        return Obj(v[1]), None, False
    if k == 'list':
        return [v[1]], None, False
    if k == 'tuple':
        return (v[1],), None, False
    if k == 'dict':
        return {v[1]: v[1]}, None, False
    raise AssertionError(v)


def make_date(spec):
    """-> (value for `expires`, expected text)"""
    k, ts = spec
    txt = email.utils.formatdate(ts, usegmt=True)
    if k == 'ts':
        return ts, txt
    if k == 'float':
        return ts + .25, txt
    if k == 'naive':
        return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=ts), txt
    if k == 'aware':
        return datetime.datetime.fromtimestamp(ts, datetime.timezone(datetime.timedelta(hours=5, minutes=30))), txt
    if k == 'date':
        d = datetime.date(1970, 1, 1) + datetime.timedelta(days=ts // 86400)
        return d, email.utils.formatdate(ts // 86400 * 86400, usegmt=True)
    if k == 'struct':
        return time.gmtime(ts), txt
    raise AssertionError(spec)


class Model:
    def __init__(self):
        self.h, self.cookies, self.reset = {}, {}, set()


def apply_op(ctx, resp, m, op, case):
    """Perform one setter call on the real response and on the model."""
    kind = op[0]
    H = resp.headers
    if kind in ('set', 'append', 'setdefault', 'content_type', 'content_length', 'expires'):
        if kind in ('set', 'append', 'setdefault'):
            name, v = op[1], op[2]
        else:
            name, v = {'content_type': 'Content-Type', 'content_length': 'Content-Length', 'expires': 'Expires'}[kind], op[1]
        if v[0] == 'date':
            val, text = make_date(v[1:])
            must = True
            ctx.obs['dates'] += 1
        else:
            val, text, must = make(v)
        try:
            if kind == 'set':
                H[name] = val
            elif kind == 'append':
                H.append(name, val)
            elif kind == 'setdefault':
                H.setdefault(name, val)
            else:
                setattr(resp, kind, val)
        except Exception as e:
            judge_rejection(ctx, kind, v, text, must, e, case)
            return
        judge_acceptance(ctx, kind, v, text, case)
        if text is None:
            m.h[name] = None          # anything clean
            return
        old = m.h.get(name)
        if kind == 'append' and name in m.h:
            m.h[name] = None if old is None else old + [text]
        elif kind == 'setdefault' and name in m.h:
            pass
        else:
            m.h[name] = [text]
        if len(m.h[name] or ()) > 1:
            ctx.obs['multi_valued'] += 1
    elif kind == 'update':
        d = {n: make(v)[0] for n, v in op[1]}
        try:
            H.update(d)
        except Exception:
            for n in d:
                m.h[n] = None         # some of them may be there
            return
        for n, v in op[1]:
            t = make(v)[1]
            m.h[n] = None if t is None else [t]
            if t is not None and CTL.search(t):
                ctx.violation('not-rejected/update', '%r' % (v,), case)
    elif kind == 'del':
        if op[1] in H:
            del H[op[1]]
        m.h.pop(op[1], None)
    elif kind == 'clear':
        H.clear(*op[1])
        if op[1]:
            for n in op[1]:
                m.h.pop(n, None)
        else:
            m.h.clear()
    elif kind == 'pop':
        H.pop(op[1], None)
        m.h.pop(op[1], None)
    elif kind == 'cookie':
        name, value, opts = op[1:]
        try:
            resp.set_cookie(name, value, **dict(opts))
        except Exception as e:
            if any(isinstance(o, str) and CTL.search(o) for _, o in opts):
                ctx.obs['cookie_attributes_rejected'] += 1
            elif not isinstance(value, str) or CTL.search(value) or len(value) > 1000 or '\ud800' <= max(value, default=' ') <= '\udfff':
                pass
            else:
                raise
            return
        if name in m.cookies:
            m.reset.add(name)
        m.cookies[name] = opts
    else:
        raise AssertionError(op)


def judge_rejection(ctx, setter, v, text, must, e, case):
    if text is not None and CTL.search(text):
        ctx.obs['rejected_' + setter] += 1
    elif must and text is not None:
        ctx.violation('clean-value-rejected/' + setter, '%r -> %r' % (v, e), case)


def judge_acceptance(ctx, setter, v, text, case):
    ctx.obs['accepted_' + setter] += 1
    ctx.obs['typed_' + {'i': 'int', 'f': 'float', 'b': 'bool', 'n': 'none', 's': 'str', 'sub': 'sub', 'subint': 'sub', 'date': 'date'}.get(v[0], 'other')] += 1
    if v[0] != 's' and text is None or v[0] not in ('s', 'date'):
        ctx.obs['typed_any'] += 1
    if text is not None and CTL.search(text):
        ctx.violation('not-rejected/' + setter, 'value %r was accepted' % (v,), case)


def surrogate(s):
    return any('\ud800' <= c <= '\udfff' for c in s)


def check_emitted(ctx, headers, m, code, case, info, raw=False):
    forb = FORBIDDEN.get(code, ())
    byname = {}
    for nm, val in headers:
        if type(nm) is not str or type(val) is not str:
            ctx.violation('not-native', '%r: %r %s' % (nm, val, info), case)
            continue
        if CTL.search(val):
            ctx.violation('control-emitted', '%r: %r %s' % (nm, val, info), case)
        try:
            t = val.encode('latin1').decode('utf8')
        except UnicodeError as e:
            ctx.violation('not-wire-safe', '%r: %r %r %s' % (nm, val, e, info), case)
            continue
        ctx.obs['emitted_values'] += 1
        if not t.isascii():
            ctx.obs['emitted_non_ascii'] += 1
        byname.setdefault(nm, []).append(t)
        if nm.lower() in forb:
            ctx.violation('forbidden-header/%s' % code, '%r: %r %s' % (nm, val, info), case)
    if code in FORBIDDEN:
        ctx.obs['withheld_%d' % code] += sum(n.lower() in forb for n in m.h)
    for n, vals in m.h.items():
        if code in FORBIDDEN and n.lower() not in KEPT or vals is None:
            continue
        if code in FORBIDDEN:
            ctx.obs['kept_%d' % code] += 1
        got = byname.get(n, [])
        if n == 'Set-Cookie':
            got = got[:len(vals)]
        if got != vals:
            ctx.violation('emission', '%r: expected %r, emitted %r %s' % (n, vals, got, info), case)
    for n in byname:
        if n not in m.h and n.lower() not in ('content-type', 'content-length', 'set-cookie'):
            ctx.violation('stray-header', '%r: %r %s' % (n, byname[n], info), case)
    ct = [n for n in m.h if n.lower() == 'content-type']
    if not ct and code not in FORBIDDEN and (not raw or True):
        ctx.obs['default_content_type'] += 1
        if [v for n, v in byname.items() if n.lower() == 'content-type'] != [['text/html; charset=UTF-8']]:
            ctx.violation('default-content-type', '%r %s' % (byname, info), case)
    if len(ct) == 1 and code not in FORBIDDEN and sum(len(v) for n, v in byname.items() if n.lower() == 'content-type') != len(m.h[ct[0]] or [1]):
        ctx.violation('extra-content-type', '%r %s' % (byname, info), case)
    explicit = len(m.h.get('Set-Cookie') or ())
    sc = byname.get('Set-Cookie', [])
    if m.h.get('Set-Cookie', ()) is not None:
        sc = sc[explicit:]
        names = [c.split('=', 1)[0] for c in sc]
        # a cookie that was set again may keep its place or not
        if sorted(names) != sorted(m.cookies) or [n for n in names if n not in m.reset] != [n for n in m.cookies if n not in m.reset]:
            ctx.violation('cookies', 'set %r, emitted %r %s' % (list(m.cookies), sc, info), case)
        for c in sc:
            ctx.obs['cookies_emitted'] += 1
            for k, v in m.cookies[c.split('=', 1)[0]] if c.split('=', 1)[0] in m.cookies else ():
                if isinstance(v, str) and v and '; %s=%s' % (k, v) not in c.lower() and '; %s=%s' % (k, v.lower()) not in c.lower() and k in ('path', 'domain'):
                    ctx.violation('cookie-attribute', '%r not in %r %s' % ((k, v), c, info), case)


def run_case(ctx, case):
    kind = case[0]
    if kind == 'resp':
        return _resp(ctx, case)
    return _special(ctx, case)


def _ctor(ctx, cls, ctor, status, m, case):
    """Build a response with constructor arguments; None when it was (rightly) refused."""
    how, items = ctor
    pairs = [(n, make(v)) for n, v in items]
    bad = any(t is not None and CTL.search(t) for _, (_, t, _) in pairs)
    vague = any(t is None for _, (_, t, _) in pairs)
    args = {}
    if how == 'dict':
        args['headers'] = {n: x for n, (x, _, _) in pairs}
        if len(args['headers']) != len(pairs):
            items = list({n: (n, v) for n, v in items}.values())
            pairs = [(n, make(v)) for n, v in items]
            args['headers'] = {n: x for n, (x, _, _) in pairs}
            bad = any(t is not None and CTL.search(t) for _, (_, t, _) in pairs)
    elif how == 'pairs':
        args['headers'] = [(n, x) for n, (x, _, _) in pairs]
    elif how == 'kwargs':
        args.update({n: x for n, (x, _, _) in pairs})
        pairs = list({n: (n, p) for n, p in pairs}.values())
        bad = any(t is not None and CTL.search(t) for _, (_, t, _) in pairs)
    try:
        r = cls(status=status, body=b'bb', **args)
    except Exception as e:
        if bad:
            ctx.obs['rejected_ctor_' + how] += 1
        elif not vague and all(must for _, (_, _, must) in pairs):
            ctx.violation('clean-value-rejected/ctor_' + how, '%r -> %r' % (items, e), case)
        return None
    if bad:
        ctx.violation('not-rejected/ctor_' + how, '%r' % (items,), case)
    if pairs:
        ctx.obs['accepted_ctor_' + how] += 1
    for n, (_, t, _) in pairs:
        if t is None or m.h.get(n, ()) is None:
            m.h[n] = None
        else:
            m.h.setdefault(n, []).append(t)
            if len(m.h[n]) > 1:
                ctx.obs['multi_valued'] += 1
    return r


def _resp(ctx, case):
    _, source, ctor, ops, status, viacopy, method = case
    surr = '\\ud' in repr(case)
    import ombott
    from ombott.response import BaseResponse, Response
    app = W.fresh_app()
    m = Model()
    state = {}

    def handler():
        if source == 'app':
            r = app.response
            if status is not None:
                r.status = status
            state['status'] = r.status_code
        else:
            cls = {'HTTPResponse': ombott.HTTPResponse, 'HTTPError': ombott.HTTPError, 'raise': ombott.HTTPResponse, 'Response': Response}[source]
            r = _ctor(ctx, cls, ctor, status, m, case)
            if r is None:
                m.h.clear()
                r = cls(status=status, body=b'bb')
            state['status'] = r.status_code
        for op in ops:
            apply_op(ctx, r, m, op, case)
        if viacopy and source != 'app':
            ctx.obs['copies'] += 1
            r = r.copy(ombott.HTTPResponse) if viacopy == 'cls' else r.copy()
        if source != 'app':
            if not surr:
                ctx.obs['headerlist_direct'] += 1
                check_emitted(ctx, r.headerlist, m, r.status_code, case, 'headerlist', raw=True)
        if source == 'raise':
            raise r
        if source == 'Response':
            return b'bb'
        if source == 'HTTPError':
            app.error_handlers.clear()
            app.error_handlers.update({r.status_code: lambda e: b'bb', '404-hooks': {}})
        return r if source != 'app' else b'bb'
    app.route('/x', 'ANY', handler)
    env = W.environ(method, '/x')
    res = W.call(app, env)
    text = ''.join(t for v in m.h.values() if v for t in v)
    ctx.seen(case, bool(CTL.search(repr(case).encode().decode('unicode_escape', 'replace'))) or not text.isascii() or status in (204, 304) or any(len(v or ()) > 1 for v in m.h.values()), source)
    ctx.obs['crowds'] += len(ops) > 100
    info = '%r -> %s\n%s' % (case, res.brief()[:500], W.errors_text(env)[-500:])
    if res.code is None or res.problems:
        ctx.violation('malformed', '; '.join(res.problems) + info, case)
        return
    if source == 'Response':
        return
    if surr:
        ctx.obs['surrogates'] += 1
    for nm, val in res.headers:
        if type(val) is not str or CTL.search(val):
            ctx.violation('control-emitted', '%r: %r %s' % (nm, val, info), case)
    if surr:
        return
    want = state['status']
    if res.code != want:
        ctx.violation('no-answer', 'expected status %d %s' % (want, info), case)
        return
    check_emitted(ctx, res.headers, m, res.code, case, info)


def _special(ctx, case):
    kind = case[0]
    import ombott
    app = W.fresh_app()
    if kind == 'redirect':
        _, url, code = case
        app.route('/x', 'ANY', lambda: ombott.redirect(url, code))
        env = W.environ('GET', '/x')
    elif kind == 'allow':
        _, names = case
        try:
            app.route('/x', list(names), lambda: 'x')
        except Exception:
            pass
        env = W.environ('OTHER', '/x')
    elif kind == 'file':
        _, kw = case
        app.route('/x', 'ANY', lambda: ombott.static_file('c14.py', core.VERIF + '/checks', **dict(kw)))
        env = W.environ('GET', '/x')
    res = W.call(app, env)
    ctx.seen(case, True, kind)
    info = '%r -> %s\n%s' % (case, res.brief()[:500], W.errors_text(env)[-300:])
    if res.code is None or res.problems:
        ctx.violation('malformed', '; '.join(res.problems) + info, case)
        return
    for nm, val in res.headers:
        if type(val) is not str or CTL.search(val):
            ctx.violation('control-emitted', '%r: %r %s' % (nm, val, info), case)
            continue
        try:
            val.encode('latin1').decode('utf8')
        except UnicodeError as e:
            ctx.violation('not-wire-safe', '%r: %r %r %s' % (nm, val, e, info), case)
    if kind == 'redirect':
        ctx.obs['redirects'] += 1
        if not CTL.search(url) and not surrogate(url) and url.startswith('http://o.test/') and url.isprintable() and url == url.strip():
            if res.code not in (301, 302, 303, 307, 308) or [v.encode('latin1').decode('utf8') for v in res.header_all('Location')] != [url]:
                ctx.violation('redirect', info, case)
    elif kind == 'allow':
        ctx.obs['allow'] += 1
    else:
        ctx.obs['files'] += 1
        kw = dict(kw)
        if not any(isinstance(v, str) and (CTL.search(v) or surrogate(v)) for v in kw.values()):
            if res.code != 200:
                ctx.violation('file-refused', info, case)
            elif kw.get('download') and not any(c in kw['download'] for c in '/\\'):
                cd = [v.encode('latin1').decode('utf8') for v in res.header_all('Content-Disposition')]
                if len(cd) != 1 or kw['download'] not in cd[0]:
                    ctx.violation('file-header', info, case)


# ---------------------------------------------------------------- generation
NAMES = ['X-A', 'X-A', 'x-b', 'X_C', 'ETag', 'Vary', 'Cache-Control', 'WWW-Authenticate', 'Link', 'Set-Cookie', 'Allow', 'Content-Encoding', 'Content-Language', 'Content-Range',
         'Content-MD5', 'content-md5', 'Content-Md5', 'Last-Modified', 'last-modified', 'LAST-MODIFIED', 'Location', 'Expires', 'X']
CTNAMES = ['Content-Type', 'content-type', 'Content-type', 'CONTENT-TYPE']
CLEAN = ['v', '', ' ', 'a b', '\t', 'h\xe9', '\u65e5\u672c', '\U0001f600', '\u010a\u010d\u0100', '\x0b\x0c\x85\u2028\u2029', '%0d%0a', '\\r\\n', 'a' * 300, '"q"', "text/plain; charset=UTF-8", '\x7f\x01\x1b', '\ufeff', '\xff',
         '\xc3\xa9']
DIRTY = ['\r', '\n', '\0', '\r\n', 'a\r\nSet-Cookie: x=1', '\r\n\r\n<html>', 'a\n', '\na', 'a\rb', 'a\0b', 'v\0', 'x' * 5000 + '\n', '\u65e5\n', ' \n ', 'a\n b', 'a\r\n\tb', 'text/html\r\n', '\n' * 50]


def rnd_text(rng):
    t = rng.choice(CLEAN)
    r = rng.random()
    if r < .06:
        return CTL.sub('', AD.spice(rng, t, 1))
    if r < .09:
        return (t or 'v') * AD.number(rng, 3000)
    return t


def rnd_name(rng):
    if rng.random() < .05:
        w = AD.word(rng)
        if re.fullmatch(r'[A-Za-z][A-Za-z0-9_-]*', w) and w.lower() not in ('content-type', 'content-length', 'status'):
            return w
    return rng.choice(NAMES)


def rnd_value(rng, p=.25):
    if rng.random() < p:
        t = rng.choice(DIRTY)
        if rng.random() < .12:
            w = rnd_text(rng)
            t = rng.choice([w + t, t + w, w + t + w])
        if rng.random() < .3:
            i = rng.randrange(len(t) + 1)
            t = rng.choice(CLEAN) + t[:i] + rng.choice('\r\n\0') + t[i:]
        return (rng.choice(['s', 's', 's', 's', 'sub', 'subint', 'obj', 'list', 'tuple']), t)
    r = rng.random()
    if r < .6:
        return ('s', rnd_text(rng) if rng.random() < .7 else ''.join(chr(rng.choice([rng.randrange(1, 300), rng.randrange(300, 0xd800), rng.randrange(0xe000, 0x110000)]))
                                                                        for _ in range(rng.randrange(6))).replace('\r', '').replace('\n', ''))
    if r < .7:
        return ('i', rng.choice([0, 1, -1, 10**30, 42, AD.number(rng)]))
    return rng.choice([('f', 1.5), ('f', float('inf')), ('b', True), ('b', False), ('n',), ('sub', 'h\xe9'), ('subint', 'ok'), ('bytes', b'abc'), ('bytes', b'a\r\nb'),
                       ('obj', 'clean'), ('list', 'clean'), ('dict', 'x'), ('s', '\ud800'), ('s', 'a\udcffb')])


def rnd_ops(rng):
    ops = []
    ctn = rng.choice(CTNAMES)
    for _ in range(rng.choice([1, 2, 3, 5, 8, 14])):
        r = rng.random()
        name = rnd_name(rng)
        if r < .25:
            ops.append(('append', name, rnd_value(rng)))
        elif r < .4:
            ops.append(('set', name, rnd_value(rng)))
        elif r < .5:
            ops.append(('setdefault', name, rnd_value(rng)))
        elif r < .56:
            ops.append(('set', ctn, rnd_value(rng)))
        elif r < .62 and ctn == 'Content-Type':
            ops.append(('content_type', rnd_value(rng)))
        elif r < .66:
            ops.append(('expires', ('date', rng.choice(['ts', 'float', 'naive', 'aware', 'date', 'struct']), rng.randrange(0, 4 * 10**9))
                        if rng.random() < .6 else ('s', rng.choice(CLEAN + DIRTY))))
        elif r < .7:
            ops.append(('content_length', rng.choice([('i', 2), ('s', '2'), ('s', '2\r\nX: y'), ('s', '\n2'), ('i', 2)])))
        elif r < .74:
            ops.append((rng.choice(['del', 'pop']), rng.choice(NAMES + [ctn])))
        elif r < .76:
            ops.append(('clear', tuple(rng.sample(NAMES, rng.randrange(0, 3)))))
        elif r < .82:
            ops.append(('update', tuple({n: (n, rnd_value(rng, .15)) for n in rng.sample(NAMES, rng.randrange(1, 4))}.values())))
        else:
            opts = []
            for k in rng.sample(['path', 'domain', 'max_age', 'expires', 'secure', 'httponly', 'samesite', 'comment'], rng.randrange(0, 3)):
                opts.append((k, rng.choice([5, 0]) if k == 'max_age' else rng.choice([0, 10**9]) if k == 'expires' and rng.random() < .7 else True if k in ('secure', 'httponly')
                             else rng.choice(['/', '/a/b', 'x.org', 'lax']) if rng.random() < .7 else rng.choice(['/\r\nX: y', '\n', '/a\0', '\r'])))
            ops.append(('cookie', rng.choice(['a', 'b', 'session', 'X-c']), rng.choice(['v', '', 'a b', 'h\xe9', '\u65e5', 'a;b,c', 'a\r\nb', '\0', '"', '\\']), tuple(opts)))
    if rng.random() < .006:
        # crowds: hundreds of values, headers, cookies
        k = int(10 ** rng.uniform(1.3, 2.7))
        r = rng.randrange(4)
        more = [(('append', 'X-A', ('s', 'v%d' % i)) if r == 0 else ('set', 'X-N%d' % i, ('s', 'w%d' % i)) if r == 1 else ('cookie', 'c%d' % i, 'v', ()) if r == 2
                 else (rng.choice(['append', 'set', 'setdefault']), 'X-M%d' % rng.randrange(k), rnd_value(rng, .02))) for i in range(k)]
        i = rng.randrange(len(ops) + 1)
        ops[i:i] = more
    return tuple(ops)


def shards(ctx):
    return [('enum', i) for i in range(2)] + [('rand', i) for i in range(ctx.scale(6, 22))]


def run_shard(ctx, shard):
    kind, idx = shard
    rng = ctx.rng
    if kind == 'enum':
        n = 0
        for c in '\r\n\0':
            for tpl in ('%s', 'a%s', '%sa', 'a%sb', ' %s', '\u65e5%s', '%s\n', 'a%s ', '\t%s', '0%s'):
                t = tpl % c
                for vk in ('s', 'sub', 'subint'):
                    v = (vk, t)
                    for src in ('app', 'HTTPResponse', 'HTTPError', 'raise', 'Response'):
                        n += 1
                        if n % 2 != idx:
                            continue
                        for op in (('set', 'X-A', v), ('append', 'X-A', v), ('setdefault', 'X-A', v), ('content_type', v), ('content_length', v), ('expires', v)):
                            if op[0] == 'expires' and vk == 'subint':
                                continue
                            for pre in ((), (('set', 'X-A', ('s', 'old')),), (('append', 'X-A', ('s', 'o1')), ('append', 'X-A', ('s', 'o2')))):
                                run_case(ctx, ('resp', src, ('pairs', ()), pre + (op,), None, None, 'GET'))
                        if src != 'app':
                            for how in ('dict', 'pairs', 'kwargs'):
                                for items in ((('X-A', v),), (('X-A', ('s', 'ok')), ('x-b', v)), (('X-A', ('s', 'ok')), ('X-A', v)), (('X_C', v), ('X-A', ('i', 3)))):
                                    run_case(ctx, ('resp', src, (how, items), (), 200, None, 'GET'))
        for st in (200, 204, 304, '204 None', '304 Same', 404, 206, 500, 205, 303):
            for name in sorted(set(NAMES + CTNAMES + ['content-length', 'ALLOW', 'content-encoding', 'Content-language', 'content-RANGE'])):
                for src in ('app', 'HTTPResponse', 'HTTPError', 'raise'):
                    for ops in ((('set', name, ('s', '2')),), (('append', name, ('s', 'h\xe9')), ('append', name, ('s', '2'))), (('append', name, ('s', 'a')), ('set', 'X-A', ('s', 'z')), ('append', name, ('i', 7)), ('append', name, ('s', 'a')))):
                        n += 1
                        if n % 2 == idx:
                            run_case(ctx, ('resp', src, ('pairs', ()), ops, st, rng.choice([None, 'cls', 'same']), rng.choice(['GET', 'HEAD', 'POST'])))
        for t in CLEAN + DIRTY:
            for pre in ('http://o.test/', '/', 'y?'):
                for code in (None, 301, 307):
                    run_case(ctx, ('redirect', pre + t, code))
            for kw in ((('mimetype', t),), (('download', t),), (('mimetype', 'text/x'), ('charset', t)), (('download', 'a%s.txt' % t), ('mimetype', 'text/plain'))):
                run_case(ctx, ('file', kw))
            run_case(ctx, ('allow', ('GET', t or 'X')))
        return
    for k in range(ctx.scale(12000, 80000)):
        src = rng.choice(['app', 'app', 'HTTPResponse', 'HTTPError', 'raise', 'Response'])
        how = rng.choice(['dict', 'pairs', 'kwargs'])
        items = tuple((rng.choice(NAMES[:-1] + ['Content-Type']), rnd_value(rng, .08)) for _ in range(rng.choice([0, 0, 1, 2, 4]))) if src != 'app' else ()
        seen_ct = [n for n, _ in items if n == 'Content-Type']
        if len(seen_ct) > 1:
            items = tuple(i for i in items if i[0] != 'Content-Type')
        run_case(ctx, ('resp', src, (how, items), rnd_ops(rng), rng.choice([None, 200, 204, 304, 404, 500, 201, '204 Nothing', '304 Same', '299 h\xe9', AD.number(rng, 999, 200)]),
                       rng.choice([None, None, 'cls', 'same']), rng.choice(['GET', 'GET', 'HEAD', 'POST'])))
