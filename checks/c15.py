"""C15: cookies come back as they were set; a signed cookie that was tampered with is absent and never reaches the unpickler."""
import base64
import datetime
import decimal
import enum
import fractions
import hashlib
import hmac
import pickle
import random
import re
import string
import sys
import uuid
import _pickle

PID = 'C15'
LEVEL = 'exploration'
RULE = ('a case is either a sequence of set_cookie/delete_cookie calls of one response (names, values, secrets, options) delivered through an application and returned by a browser model, every cookie read back in a later request, '
        'or one signed cookie with one alteration (byte substitution, deletion, insertion, truncation, swap, forged payload, other secret) read by the application; '
        'the unpickler is instrumented (wrapped loaders, audit events, payloads that report being loaded). Non-trivial unless the value is empty and unsigned')
ASSUMPTIONS = ['the client returns the name=value part of Set-Cookie byte for byte and drops cookies that expired (RFC 6265)',
               'set_cookie may reject names that are no tokens or are reserved cookie attributes, values above 4096 characters, control characters and lone surrogates',
               'an empty secret means "not signed"']
REQUIRED = ('round_trips', 'plain_read', 'signed_read', 'non_ascii_values', 'separator_values', 'objects_read', 'multi_cookie_responses', 'overwritten', 'deliveries_raise', 'deliveries_redirect', 'deliveries_copy', 'deliveries_error',
            'tampered', 'tampered_sub', 'tampered_del', 'tampered_trunc', 'tampered_ins', 'forged', 'other_secrets', 'swapped', 'wire_tampered', 'renamed', 'foreign_pieces', 'loads_of_authentic', 'canaries_armed', 'odd_names', 'absent_reads', 'rejected_inputs')

# ---------------------------------------------------------------- the instrumented unpickler
LOADS = []        # payloads that reached an unpickler while watched
FIRED = []        # canaries that were brought to life
ACTIVE = [0]


def fired(token):
    FIRED.append(token)
    return 'canary ' + token


class Canary:
    """Reports its own deserialisation."""

    def __init__(self, token):
        self.token = token

    def __reduce__(self):
        return fired, (self.token,)


def wrap_fn(orig, first):
    def wrapper(*a, **kw):
        if ACTIVE[0]:
            LOADS.append(bytes(a[0]) if first and a and isinstance(a[0], (bytes, bytearray)) else b'?')
        return orig(*a, **kw)
    wrapper.__name__ = 'loads'
    return wrapper


def instrument():
    """Before the code under test is imported: its loaders are then the wrapped ones, however they are imported."""
    for mod in (pickle, _pickle):
        for name in ('loads', 'load', '_loads', '_load'):
            if hasattr(mod, name):
                setattr(mod, name, wrap_fn(getattr(mod, name), 'loads' in name))
        for name in ('Unpickler', '_Unpickler'):
            if hasattr(mod, name):
                orig = getattr(mod, name)
                setattr(mod, name, type(name, (orig,), {'load': wrap_fn(orig.load, False)}))

    def audit(event, args):
        if event == 'pickle.find_class' and ACTIVE[0]:
            LOADS.append(b'find_class %s' % repr(args[1:]).encode())
    sys.addaudithook(audit)


if 'ombott' in sys.modules:
    raise RuntimeError('the code under test was imported before its loaders were instrumented')
instrument()

from vlib import autodict as AD  # noqa: E402
from vlib import core          # noqa: E402
from vlib import wsgi as W     # noqa: E402


# a tampered pickle that does reach the unpickler may ask for all the memory there is
MAX_DATA = 800 << 20


class watched:
    def __enter__(self):
        del LOADS[:], FIRED[:]
        ACTIVE[0] += 1

    def __exit__(self, *a):
        ACTIVE[0] -= 1
        return False


# ---------------------------------------------------------------- values
class Point:
    def __init__(self, x, y):
        self.x, self.y = x, y

    def __eq__(self, o):
        return type(o) is Point and (o.x, o.y) == (self.x, self.y)

    def __hash__(self):
        return hash((self.x, self.y))

    def __repr__(self):
        return 'Point(%r, %r)' % (self.x, self.y)


class Color(enum.Enum):
    RED = 1
    BLUE = 'b'


SEPARATORS = ';,="\' \\/?!&%+()<>@[]{}:|~#$*^`-._'
NONASCII = '\xe9\xdf\xff\xa0\x85\xad\xc3\xa9\u20ac\u0416\u4e2d\U0001f600\u202e\ufeff\u0300\u1e9e\xd7\x80'
CONTROL = '\t\n\r\0\x07\x1f\x7f\x0b\x1b'


def text_value(rng):
    r = rng.random()
    if r < .05:
        return ''
    if rng.random() < .06:
        w = ''.join(c for c in AD.word(rng) if ord(c) > 31 and ord(c) != 127)
        return rng.choice([w, w + '=' + w, w + ':', 'a ' + w, w + 'b', w + '\xe9'])
    if rng.random() < .02:
        return rng.choice(['v', 'ab', '\xe9', '; ', '"'])[:1] * AD.number(rng, 4096)
    n = rng.choice([1, 1, 2, 3, 5, 8, 20]) if r < .97 else rng.choice([300, 2000, 4095, 4096])
    if r < .2:
        return ''.join(rng.choice(string.ascii_letters + string.digits) for _ in range(n))
    if r < .45:
        return ''.join(rng.choice(SEPARATORS + 'ab1') for _ in range(n))
    if r < .7:
        return ''.join(rng.choice(NONASCII + 'ab"; \\') for _ in range(n))
    if r < .78:
        return ''.join(rng.choice(CONTROL + 'ab;') for _ in range(n))
    if r < .84:
        return ''.join(chr(rng.randrange(256)) for _ in range(n))
    if r < .9:
        return ''.join(chr(rng.choice([rng.randrange(0x20, 0xd800), rng.randrange(0xe000, 0x110000)])) for _ in range(n))
    return rng.choice(['""', '"', '"a', 'a"', '"a"', '\\', '\\"', '\\073', '"\\073"', '\\351', '%20', 'a=b', '=', '==', ';', '; a=b', ' a', 'a ', ' ', 'True', 'None', '0', '!sig?msg', '!?', '?', '!', 'a, b', '$Version=1', 'path=/',
                       '{"x": [1, "2"]}', 'a\\', "'", 'a&b', '<b>', '\xc3\xa9', '=?utf-8?q?a?=', '"\xe9"', 'a\\nb', '\\\\', '/../', 'deleted', 'Z' * 50, '\\1', '\\400', '\\018', '"\\', '\\"\\', '"";""'])


def obj_value(seed):
    rng = random.Random('obj%s' % seed)

    def make(depth):
        r = rng.random()
        if depth and r < .5:
            n = rng.choice([0, 1, 2, 3])
            k = rng.randrange(7)
            if k == 0:
                return [make(depth - 1) for _ in range(n)]
            if k == 1:
                return tuple(make(depth - 1) for _ in range(n))
            if k == 2:
                return {leaf(): make(depth - 1) for _ in range(n)}
            if k == 3:
                return {leaf() for _ in range(n)}
            if k == 4:
                return frozenset(leaf() for _ in range(n))
            if k == 5:
                return Point(make(depth - 1), leaf())
            return [[], {}, (), set(), '', b'', 0][rng.randrange(7)]
        return leaf()

    def leaf():
        k = rng.randrange(19)
        if k == 18:
            return rng.choice([AD.number(rng), AD.word(rng), AD.word(rng).encode('utf8')])
        if k < 4:
            return text_value(rng)[:40]
        return [
            lambda: None, lambda: True, lambda: False, lambda: rng.randrange(-5, 300), lambda: rng.choice([2 ** 31, -2 ** 63, 2 ** 100]),
            lambda: rng.choice([0.0, -0.0, 1.5, 1e300, float('inf'), -1e-320]), lambda: bytes(rng.randrange(256) for _ in range(rng.randrange(20))), lambda: complex(1, -2),
            lambda: decimal.Decimal('1.10'), lambda: fractions.Fraction(1, 3), lambda: datetime.datetime(2020, 1, 2, 3, 4, 5, 6), lambda: uuid.UUID(int=7), lambda: rng.choice(list(Color)),
            lambda: ('n', rng.randrange(10)),
        ][k - 4]()
    return make(rng.choice([0, 1, 2, 3]))


def same(a, b):
    """Equal in value and type."""
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return repr(a) == repr(b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(map(repr, a)) == list(map(repr, b)) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, Point):
        return same(a.x, b.x) and same(a.y, b.y)
    return a == b


def value_of(spec):
    """('text', s) | ('obj', seed) | ('canary', token)"""
    if spec[0] == 'text':
        return spec[1]
    if spec[0] == 'canary':
        return Canary(spec[1])
    return obj_value(spec[1])


# what other applications of the host may have left in the browser
FOREIGN = ['_zz=GA1.2.3', 'zz={"k":[1,2]}', 'zz=a b', 'zz="unbalanced', 'zz=x"', 'zflag', '=zz', 'zz=', 'zz=\xc3\xa9', 'zz=a,b', 'z z=1', 'z[0]=1', 'z:z=1', 'zz=1=2', 'zz=!a?b', 'zz="a\\"', 'zz=%3B', '']
TOKEN_CHARS = string.ascii_letters + string.digits + "!#$%&'*+-.^_`|~"
RESERVED = {'expires', 'path', 'comment', 'domain', 'max-age', 'secure', 'httponly', 'version', 'samesite', 'partitioned'}
NAMES = ['a', 'b', 'c', 'session', 'A', 'a.b', 'a-b', 'a_b', '__Host-x', '__Secure-x', '$x', '$Version', "it's", 'a!', '#', '%41', '1', '0', '-', '~', 'a|b', '^', '`', '&', '*', '+', 'Paths', 'max_age', 'n' * 60, 'getunicode', 'decode', 'get', 'items', 'Cookie']
BAD_NAMES = ['', 'a b', 'a=b', 'a;b', 'a,b', '\xe9', '\u20ac', 'a"b', 'path', 'Path', 'expires', 'a\n', 'a\r\nb', '(', 'a/b', 'a\0', ' a', 'a ', '\u0661']


def name_of(rng):
    r = rng.random()
    if r < .55:
        return rng.choice(NAMES)
    if r < .65:
        w = ''.join(c for c in AD.word(rng) if c in TOKEN_CHARS)
        w = rng.choice([w, w, w + 'x', '_' + w, w + '-1', 'n' * AD.number(rng, 300)])
        if w:
            return w
    return ''.join(rng.choice(TOKEN_CHARS) for _ in range(rng.choice([1, 2, 5])))


def secret_of(rng):
    if rng.random() < .05:
        return rng.choice([AD.word(rng), 's' * AD.number(rng, 300, 1), AD.word(rng) + 'x'])
    return rng.choice(['s', 'secret', 'k' * 64, 'k' * 65, 'k' * 200, 'p\xe4ss\u20ac', b'bytes\xff\x00x', ' ', '0', 'a?b!c', 'x' * 16, 'Secret', b'\x80', '\U0001f511',
                       ''.join(rng.choice(string.ascii_letters) for _ in range(12))])


def option_of(rng):
    opts = {}
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        k, v = rng.choice([('path', '/'), ('path', '/a/b'), ('domain', 'h.test'), ('max_age', 3600), ('max_age', datetime.timedelta(days=2)), ('expires', 4102444800), ('expires', datetime.datetime(2090, 1, 1)), ('secure', True),
                           ('httponly', True), ('samesite', 'Lax'), ('comment', 'no; comment, "really"')])
        opts[k] = v
    return opts


# options are written by name in the cases
OPTIONS = {'path': '/', 'path2': '/a/b', 'domain': 'h.test', 'max_age': 3600, 'max_age2': datetime.timedelta(days=2), 'expires': 4102444800, 'expires2': datetime.datetime(2090, 1, 1), 'secure': True, 'httponly': True,
           'samesite': 'Lax', 'comment': 'no; comment, "really"'}


def options_of(names):
    return {n.rstrip('2'): OPTIONS[n] for n in names}


def acceptable(name, value, secret):
    """None if set_cookie must accept this, or why it may not."""
    if not name or any(c not in TOKEN_CHARS for c in name):
        return 'name'
    if name.lower() in RESERVED:
        return 'reserved'
    if secret:
        return 'long' if 4 * ((len(pickle.dumps((name, value), -1)) + 2) // 3) + 26 > 4096 else None
    if len(value) > 4096:
        return 'long'
    if any(ord(c) < 32 or ord(c) == 127 for c in value):
        return 'control'
    try:
        value.encode('utf8')
    except UnicodeError:
        return 'surrogate'
    return None


# ---------------------------------------------------------------- the browser
class Browser:
    def __init__(self):
        self.jar = {}

    def receive(self, headers):
        for k, v in headers:
            if k.lower() != 'set-cookie':
                continue
            pair, *attrs = v.split(';')
            name, eq, value = pair.partition('=')
            if not eq:
                continue
            name, value = name.strip(' \t'), value.strip(' \t')
            expired = False
            for a in attrs:
                ak, _, av = a.partition('=')
                ak, av = ak.strip().lower(), av.strip()
                if ak == 'max-age' and re.fullmatch(r'-?[0-9]+', av):
                    expired = int(av) <= 0
                    break
                if ak == 'expires' and re.search(r'\b19[67]\d\b', av):
                    expired = True
            self.jar.pop(name, None)
            if not expired:
                self.jar[name] = value

    def header(self, rng=None, junk=()):
        items = ['%s=%s' % kv for kv in self.jar.items()] + list(junk)
        if rng is not None:
            rng.shuffle(items)
        return (rng.choice(['; ', '; ', ';', ' ; ', ';  ']) if rng is not None else '; ').join(items)


SENTINEL = object()


class App:
    """An application that sets and reads what the harness tells it to."""

    def __init__(self):
        import ombott
        self.ombott = ombott
        self.app = app = ombott.Ombott()
        self.job = None
        app.route('/set', ['GET', 'POST'], lambda: self.job())
        app.route('/get', ['GET', 'POST'], lambda: self.job())
        app.error(418)(lambda e: self.on_error(e))

    def on_error(self, e):
        return 'handled'

    def deliver(self, sets, how):
        """Perform the set operations on a response delivered in the given way -> (errors per operation, Result)"""
        app, om = self.app, self.ombott
        errors = []

        def apply(resp):
            for op, name, vspec, secret, opts in sets:
                try:
                    if op == 'del':
                        resp.delete_cookie(name)
                    else:
                        kw = options_of(opts)
                        if secret is not None:
                            kw['secret'] = secret
                        resp.set_cookie(name, value_of(vspec), **kw)
                    errors.append(None)
                except Exception as e:
                    errors.append(e)

        def job():
            if how == 'response':
                apply(app.response)
                return 'ok'
            if how == 'early':
                apply(app.response)
                return om.HTTPResponse('keeps nothing') if False else iter(['a', 'b'])
            if how in ('raise', 'return', 'return_err'):
                r = om.HTTPError(418, 'x') if how == 'return_err' else om.HTTPResponse('x')
                apply(r)
                if how == 'raise':
                    raise r
                return r
            if how == 'redirect':
                apply(app.response)
                om.redirect('/get')
            if how == 'copy':
                apply(app.response)
                c = app.response.copy(om.HTTPResponse)
                c.body = 'copied'
                raise c
            if how == 'clone':
                r = om.HTTPError(409, 'x')
                apply(r)
                raise r.copy()
            if how == 'generator':
                def gen():
                    apply(app.response)
                    yield 'a'
                return gen()
            raise RuntimeError(how)
        self.job = job
        res = W.call(app, W.environ('GET', '/set'))
        return errors, res

    def read(self, cookie_header, reads):
        """reads: [(name, secret)] -> values (SENTINEL for absent) or the exception"""
        app = self.app
        out = []

        def job():
            for name, secret in reads:
                try:
                    out.append(app.request.get_cookie(name, SENTINEL, secret=secret) if secret is not None else app.request.get_cookie(name, SENTINEL))
                except Exception as e:
                    out.append(e)
            for name, secret in reads:
                try:
                    out.append((app.request.cookies.getunicode(name), app.request.cookies.get(name)))
                except Exception as e:
                    out.append(e)
            return 'ok'
        self.job = job
        env = W.environ('GET', '/get', headers={'Cookie': cookie_header})
        res = W.call(app, env)
        return out, res


HOWS = ('response', 'early', 'raise', 'return', 'return_err', 'redirect', 'copy', 'clone', 'generator')


def the_app(ctx):
    a = ctx.__dict__.get('c15app')
    if a is None:
        a = ctx.c15app = App()
    return a


def run_case(ctx, case):
    return {'rt': run_round_trip, 'tamper': run_tamper, 'wire': run_wire, 'secrets': run_secrets, 'plain': run_plain_as_signed}[case[0]](ctx, case)


def run_round_trip(ctx, case):
    _, sets, how, junk, seed = case
    app = the_app(ctx)
    ctx.seen(case, True, 'rt-' + how)
    errors, res = app.deliver(sets, how)
    ctx.obs['deliveries_' + {'return_err': 'error', 'clone': 'error'}.get(how, how)] += 1
    expected = {}
    order = []
    for (op, name, vspec, secret, opts), err in zip(sets, errors):
        if op == 'del':
            if err is None:
                expected.pop(name, None)
            continue
        value = value_of(vspec)
        why = acceptable(name, value, secret) if secret or isinstance(value, str) else 'unsigned object'
        if err is not None:
            if why is None:
                ctx.violation('rejected', 'set_cookie(%r, %r, secret=%r): %r' % (name, value, secret, err), case)
                return
            ctx.obs['rejected_inputs'] += 1
            continue
        if why in ('surrogate',):
            return
        if name in expected:
            ctx.obs['overwritten'] += 1
        expected[name] = (value, secret)
    if len(expected) > 1:
        ctx.obs['multi_cookie_responses'] += 1
    if res.escaped is not None or res.code is None or res.code == 500 or len(errors) != len(sets):
        ctx.violation('not-delivered/' + how, 'a response with the cookies %r failed: %s %s' % (expected, res.brief(), errors), case)
        return
    b = Browser()
    b.receive(res.headers)
    junk = [j for j in junk if j.partition('=')[0].strip() not in expected]
    reads = [(n, s if s else None) for n, (v, s) in expected.items()]
    reads += [('absent', None), ('absent', 'secret')] if 'absent' not in expected else []
    with watched():
        out, res2 = app.read(b.header(random.Random(seed), junk), reads)
    ctx.obs['foreign_pieces'] += len(junk)
    if res2.code != 200 or len(out) != 2 * len(reads):
        ctx.violation('not-readable', 'request with the cookies %r failed: %s' % (b.header(), res2.brief()), case)
        return
    for (name, secret), got, (uni, raw) in zip(reads, out, out[len(reads):]):
        if name == 'absent' and 'absent' not in expected:
            ctx.obs['absent_reads'] += 1
            if got is not SENTINEL:
                ctx.violation('not-default', 'a cookie that was never set reads as %r' % (got,), case)
            continue
        value, _ = expected[name]
        ctx.obs['round_trips'] += 1
        if name not in ('a', 'b', 'c', 'session', 'A'):
            ctx.obs['odd_names'] += 1
        if secret is not None:
            ctx.obs['signed_read'] += 1
            ctx.obs['loads_of_authentic'] += bool(LOADS)
            if not isinstance(value, str):
                ctx.obs['objects_read'] += 1
            if got is SENTINEL or isinstance(got, Exception) or not same(got, value):
                ctx.violation('signed-differs', 'cookie %r signed with %r set to %r reads as %s (header %r)' % (name, secret, value, 'absent' if got is SENTINEL else repr(got), b.header()), case)
                return
            continue
        ctx.obs['plain_read'] += 1
        if any(ord(c) > 127 for c in value):
            ctx.obs['non_ascii_values'] += 1
        if set(value) & set(SEPARATORS):
            ctx.obs['separator_values'] += 1
        if got != value or type(got) is not str:
            ctx.violation('plain-differs', 'cookie %r set to %r reads as %s (header %r)' % (name, value, 'absent' if got is SENTINEL else repr(got), b.header()), case)
            return
        if uni != value or (value.isascii() and raw != value):
            ctx.violation('cookies-differ', 'cookie %r set to %r is %r / %r in request.cookies' % (name, value, uni, raw), case)
            return


# ---------------------------------------------------------------- tampering
SIG_LEN = 24
ALGOS = [hashlib.md5, hashlib.sha1, hashlib.sha256, hashlib.sha512]


def sign(key, msg, algo=hashlib.md5):
    return base64.b64encode(hmac.new(key if isinstance(key, bytes) else key.encode('utf8'), msg.encode('latin1'), digestmod=algo).digest()).decode()


def signed_text(ctx, name, vspec, secret):
    """The text a browser holds for a signed cookie, without cookie quoting."""
    app = the_app(ctx)
    r = app.ombott.HTTPResponse()
    r.set_cookie(name, value_of(vspec), secret=secret)
    b = Browser()
    b.receive(r.headerlist)
    return b.jar[name]


def unquote_wire(w):
    """Reference decoding of the quoting of the cookie value (RFC 2109 quoted-string with octal escapes)."""
    if len(w) < 2 or w[0] != '"' or w[-1] != '"':
        return w
    return re.sub(r'\\([0-3][0-7][0-7])|\\(.)', lambda m: chr(int(m.group(1), 8)) if m.group(1) else m.group(2), w[1:-1], flags=re.S)


def quote_wire(t):
    if all(c in TOKEN_CHARS + ':' for c in t):
        return t
    return '"' + ''.join('\\' + c if c in '"\\' else '\\%03o' % ord(c) if ord(c) < 32 or ord(c) > 126 or c in ',;' else c for c in t) + '"'


def alterations(rng, text, other, secret, name, forged, every):
    """Yield (class, altered text); text is !sig?msg of an authentic cookie, other another authentic one."""
    n = len(text)
    q = text.find('?') if '?' in text else n // 3
    sig, msg = text[1:q], text[q + 1:]
    oq = other.find('?') if '?' in other else len(other) // 3
    osig, omsg = other[1:oq], other[oq + 1:]
    alphabet = string.ascii_letters + string.digits + '+/='
    for i in range(n):
        c = text[i]
        subs = {alphabet[(alphabet.find(c) + 1) % len(alphabet)], c.swapcase(), chr(ord(c) ^ 1), rng.choice(alphabet), rng.choice('!?= "\\;,\t\xff\x00\x80.-_~')}
        if every:
            subs |= {chr(x) for x in range(1, 256)}
        for s in sorted(subs):
            if s != c:
                yield 'sub', text[:i] + s + text[i + 1:]
        yield 'del', text[:i] + text[i + 1:]
        for s in (rng.choice(alphabet), rng.choice('=?! \n\r\t\x00\xe9"\\'), c):
            yield 'ins', text[:i] + s + text[i:]
        yield 'trunc', text[:i]
        if i:
            yield 'trunc', text[i:]
    for s in ('A', '=', '==', '\n', ' ', '?', '!', '\x00', 'AAAA', msg[-4:], 'é'.encode().decode('latin1')):
        yield 'ins', text + s
    # two bytes exchanged, pieces moved
    for _ in range(40 if every else 12):
        i, j = sorted(rng.sample(range(1, n), 2))
        if text[i] != text[j]:
            t = list(text)
            t[i], t[j] = t[j], t[i]
            yield 'sub', ''.join(t)
    yield 'swap', '!%s?%s' % (osig, msg)
    yield 'swap', '!%s?%s' % (sig, omsg)
    yield 'swap', '!%s?%s' % (msg, sig)
    yield 'swap', '!%s?%s' % (sig, msg + omsg)
    yield 'swap', '!%s?%s' % (sig, omsg + msg)
    yield 'swap', '!%s?%s?%s' % (sig, msg, omsg)
    yield 'swap', '!%s?%s?%s' % (osig, omsg, msg) if omsg != msg else '!?'
    yield 'swap', '!%s!%s?%s' % (sig, osig, omsg)
    yield 'swap', '!%s%s?%s' % (sig, osig, msg)
    # signatures of any other length
    for k in range(SIG_LEN + 1):
        yield 'siglen', '!%s?%s' % (sig[:k], omsg)
        yield 'siglen', '!%s?%s' % (sig[k:], forged)
        if k < SIG_LEN:
            yield 'siglen', '!%s?%s' % (sig[:k], msg)
    for k in (1, 2, 4, 8, 24):
        yield 'siglen', '!%s?%s' % (sig + 'A' * k, msg)
        yield 'siglen', '!%s?%s' % (sig + '=' * k, msg)
        yield 'siglen', '!%s?%s' % ('=' * k + sig, msg)
    yield 'siglen', '!%s?%s' % (sig.rstrip('='), msg)
    # payloads that were never signed with this secret
    key = secret if isinstance(secret, bytes) else secret.encode('utf8')
    used = [a for a in ALGOS if sign(key, msg, a) == sig] or ALGOS
    for s in (sig, osig, '', 'A' * 24, '=' * 24, sign(b'', forged), sign(key + b'x', forged), sign(key[:-1], forged), sign(key[::-1], forged) if key != key[::-1] else 'x', sign(key, forged, hashlib.sha1), sign(key, forged, hashlib.sha256),
              base64.b64encode(hashlib.md5(forged.encode()).digest()).decode(), base64.b64encode(hashlib.md5(key + forged.encode()).digest()).decode(), hashlib.md5(forged.encode()).hexdigest(),
              hmac.new(key, forged.encode(), digestmod=hashlib.md5).hexdigest(), sign(key, forged)[:-1], sign(key, forged)[:23] + 'A', sign(key, forged)[:4], sign(key, forged).swapcase(), sign(key, forged)[::-1],
              sign(key, base64.b64decode(forged).decode('latin1')), sign(key, '!' + forged), sign(key, forged + '='), sign(key, name + forged), sign(b'None', forged), sign(name, forged)):
        for form in ('!%s?%s', '%s?%s', '!%s%s', '!%s!%s', '?%s?%s', '!%s=%s', '!!%s?%s', '!%s??%s', ' !%s?%s', '!%s? %s', '!%s\t?%s'):
            t = form % (s, forged)
            # `!%s? ` etc. with the right signature of this text would be authentic
            p = t[1:].split('?', 1) if t.startswith('!') else None
            if p and len(p) == 2 and any(p[0] == sign(key, p[1], a) for a in used):
                continue
            yield 'forged', t
    yield 'forged', forged
    yield 'forged', '!?'
    yield 'forged', '!'
    yield 'forged', '?'


OBS = {'sub': 'tampered_sub', 'del': 'tampered_del', 'ins': 'tampered_ins', 'trunc': 'tampered_trunc', 'swap': 'swapped', 'siglen': 'swapped', 'forged': 'forged'}


def check_absent(ctx, name, secret, wire, what, case, authentic=None):
    """The cookie name=wire read with the secret must be absent and nothing may be deserialised."""
    req = the_app(ctx).ombott.Request({'HTTP_COOKIE': name + '=' + wire})
    with watched():
        try:
            got = req.get_cookie(name, SENTINEL, secret=secret)
        except Exception as e:
            ctx.violation('tampered-raises/' + what, 'get_cookie of %r raises %r' % (wire, e), case)
            return
    if got is not SENTINEL:
        ctx.violation('tampered-read/' + what, 'the %s cookie %r (authentic: %r) reads as %r with secret %r' % (what, wire, authentic, got, secret), case)
    elif FIRED or LOADS:
        ctx.violation('tampered-deserialised/' + what, 'the payload of %r (authentic: %r) was deserialised (%r, %r)' % (wire, authentic, LOADS[:2], FIRED), case)


def setup(ctx, case):
    _, name, vspec, secret, seed = case[:5]
    rng = random.Random('t%s' % (seed,))
    wire = signed_text(ctx, name, vspec, secret)
    text = unquote_wire(wire)
    other = unquote_wire(signed_text(ctx, name, ('obj', seed + 1), secret))
    # the authentic cookie is read, and the instruments see it
    req = the_app(ctx).ombott.Request({'HTTP_COOKIE': name + '=' + wire})
    with watched():
        got = req.get_cookie(name, SENTINEL, secret=secret)
    if vspec[0] == 'canary':
        ctx.obs['canaries_armed'] += 1
        if FIRED != [vspec[1]] or got != 'canary ' + vspec[1]:
            ctx.violation('authentic-not-read', 'the authentic cookie %r reads as %r (%r)' % (wire, got, FIRED), case)
            return None
    elif got is SENTINEL or not same(got, value_of(vspec)):
        ctx.violation('authentic-not-read', 'the authentic cookie %r reads as %s' % (wire, 'absent' if got is SENTINEL else repr(got)), case)
        return None
    if not LOADS and not FIRED:
        raise core.Inconclusive('the unpickler is not observed')
    ctx.obs['loads_of_authentic'] += 1
    return rng, wire, text, other


def run_tamper(ctx, case):
    """All alterations of one cookie (or the given one)."""
    _, name, vspec, secret, seed, every = case[:6]
    s = setup(ctx, case)
    if s is None:
        return
    rng, wire, text, other = s
    forged = base64.b64encode(pickle.dumps((name, Canary('forged')), -1)).decode()
    authentic = {text, other}
    for what, t in alterations(rng, text, other, secret, name, forged, every):
        if t in authentic:
            continue
        ctx.obs['tampered'] += 1
        ctx.obs[OBS[what]] += 1
        one = case[:6] + (what, t)
        ctx.seen(one, True, 'tamper-' + what)
        if len(case) > 6 and case[7] != t:
            continue
        check_absent(ctx, name, secret, quote_wire(t), what, one, text)


def run_wire(ctx, case):
    """Single-byte alterations of the quoted text as it travels."""
    _, name, vspec, secret, seed = case[:5]
    s = setup(ctx, case)
    if s is None:
        return
    rng, wire, text, other = s
    for i in range(len(wire)):
        for t in (wire[:i] + wire[i + 1:], wire[:i] + rng.choice('"\\ AZaz09+/=!?') + wire[i + 1:], wire[:i] + rng.choice('"\\ A=!?') + wire[i:], wire[:i], wire[i:], wire[:i] + chr(ord(wire[i]) ^ (1 << rng.randrange(7))) + wire[i + 1:]):
            if ';' in t or t == wire:
                continue
            if unquote_wire(t.strip(' \t')) in (text, other) or unquote_wire(t) == text:
                continue
            # nothing but white space around, or a missing quote: the payload and the signature are those of the authentic cookie
            ctx.obs['wire_tampered'] += 1
            one = case[:5] + (t,)
            ctx.seen(one, True, 'wire')
            if len(case) > 5 and case[5] != t:
                continue
            if t.strip('" \t\\') == text:
                continue
            check_absent(ctx, name, secret, t, 'wire', one, wire)


def canon(key):
    """Secrets with the same canonical form are one HMAC key."""
    key = key if isinstance(key, bytes) else key.encode('utf8')
    if len(key) > 64:
        key = hashlib.md5(key).digest()
    return key.ljust(64, b'\0')


def run_secrets(ctx, case):
    """The authentic cookie read with other secrets."""
    _, name, vspec, secret, seed = case
    s = setup(ctx, case)
    if s is None:
        return
    rng, wire, text, other = s
    key = secret if isinstance(secret, bytes) else secret.encode('utf8')
    others = [key + b'x', key[:-1], key[1:], key.swapcase(), key + key, b' ' + key, key + b' ', key + b'\n', key[::-1], b'x', b'None', hashlib.md5(key).digest(), hashlib.md5(key).hexdigest().encode(), key[:64], key[:16], key[:8], key[:1],
              b'\0' + key, name.encode(), text.encode(), bytes([key[0] ^ 1]) + key[1:], key[:-1] + bytes([key[-1] ^ 1]), key.upper(), key.lower(), key.strip(), key + b'\0', key + b'\0\0', key.rstrip(b'\0')]
    others += [secret_of(rng) for _ in range(6)]
    # under another name it is another cookie
    for alias in (name + 'x', 'x' + name, name[:-1] or 'y', name.swapcase(), 'other'):
        if alias == name:
            continue
        ctx.obs['renamed'] += 1
        req = the_app(ctx).ombott.Request({'HTTP_COOKIE': '%s=%s; %s=%s' % (name, wire, alias, wire)})
        got = [req.get_cookie(n, SENTINEL, secret=secret) for n in (name, alias, name, alias)]
        if [g is SENTINEL for g in got] != [False, True, False, True]:
            ctx.violation('renamed', 'the signed cookie %r of %r presented as %r: %r' % (wire, name, alias, got), case)
            return
    # one request asked with several secrets
    req = the_app(ctx).ombott.Request({'HTTP_COOKIE': '%s=%s' % (name, wire)})
    got = [req.get_cookie(name, SENTINEL, secret=s) for s in (key + b'x', secret, key + b'x', key, b'x' + key)]
    if [g is SENTINEL for g in got] != [True, False, True, False, True]:
        ctx.violation('several-secrets', 'the signed cookie %r read with several secrets: %r' % (wire, got), case)
        return
    for o in others:
        ob = o if isinstance(o, bytes) else o.encode('utf8')
        if not ob or ob == key:
            continue
        ctx.obs['other_secrets'] += 1
        one = case + (ob,)
        ctx.seen(one, True, 'secrets')
        if canon(ob) == canon(key):
            # HMAC pads keys with NULs and hashes long ones: recorded as a finding
            req = the_app(ctx).ombott.Request({'HTTP_COOKIE': name + '=' + wire})
            with watched():
                got = req.get_cookie(name, SENTINEL, secret=ob)
            if got is not SENTINEL:
                ctx.violation('hmac-equivalent-secrets', 'a cookie signed with %r is read with %r' % (key, ob), case)
            continue
        for form in ([ob] + ([ob.decode('utf8')] if ob.isascii() else [])):
            check_absent(ctx, name, form, wire, 'other-secret', case, text)


def run_plain_as_signed(ctx, case):
    """A plain cookie read with a secret is absent."""
    _, name, value, secret = case
    ctx.seen(case, True, 'plain')
    ctx.obs['tampered'] += 1
    check_absent(ctx, name, secret, quote_wire(value), 'plain', case)


# ---------------------------------------------------------------- workload
def shards(ctx):
    q = ctx.quick
    return [('rt', i) for i in range(8 if q else 32)] + [('tamper', i) for i in range(8 if q else 48)]


def rnd_set(rng):
    r = rng.random()
    name = name_of(rng)
    if r < .06:
        return ('del', name, None, None, ())
    if r < .12:
        name = rng.choice(BAD_NAMES)
    opts = tuple(sorted(set(rng.sample(sorted(OPTIONS), rng.choice([0, 0, 0, 1, 2])))))
    if rng.random() < .45:
        return ('set', name, ('obj', rng.randrange(10 ** 9)) if rng.random() < .7 else ('text', text_value(rng)), secret_of(rng), opts)
    return ('set', name, ('text', text_value(rng)), None, opts)


def run_shard(ctx, shard):
    kind, idx = shard
    rng = ctx.rng
    if kind == 'rt':
        # every single character, and pairs of special ones
        chars = [chr(i) for i in range(256) if i % ctx.scale(8, 32) == idx] + list(NONASCII[idx::8])
        for c in chars:
            for v in (c, 'a' + c, c + 'a', c + c, c + '"' + c, '"' + c + '"', '\\' + c):
                run_case(ctx, ('rt', (('set', 'a', ('text', v), None, ()), ('set', 'b', ('text', v), 'secret', ()), ('set', 'c', ('text', 'last'), None, ())), 'response', (), 0))
        if idx == 0:
            for c in TOKEN_CHARS:
                for name in (c, c + 'a', 'a' + c):
                    run_case(ctx, ('rt', (('set', 'first', ('text', '1'), None, ()), ('set', name, ('text', 'v'), None, ()), ('set', 'last', ('text', '2'), 'secret', ())), 'response', (), 0))
            for name in NAMES + BAD_NAMES:
                for secret in (None, 'secret'):
                    run_case(ctx, ('rt', (('set', name, ('text', 'v'), secret, ()), ('set', 'last', ('text', ''), None, ())), 'raise', (), 1))
        for k in range(ctx.scale(3000, 25000)):
            n = rng.choice([1, 1, 2, 2, 3, 5]) if rng.random() < .99 else AD.number(rng, 120, 1)
            sets = [rnd_set(rng) for _ in range(n)]
            if rng.random() < .2:
                # the same name again
                sets.append(rnd_set(rng)[:1] + (sets[0][1],) + rnd_set(rng)[2:])
                if sets[-1][0] == 'set' and sets[-1][2] is None:
                    sets[-1] = ('del', sets[0][1], None, None, ())
            junk = tuple(rng.choice(FOREIGN) for _ in range(rng.choice([0, 0, 1, 2])))
            run_case(ctx, ('rt', tuple(sets), rng.choice(HOWS), junk, rng.randrange(1000)))
        return
    for k in range(ctx.scale(14, 60)):
        name = name_of(rng)
        while name.lower() in RESERVED:
            name = name_of(rng)
        seed = rng.randrange(10 ** 9)
        vspec = ('canary', 't%d' % k) if k % 3 != 2 else ('obj', seed)
        if vspec[0] == 'obj' and len(pickle.dumps(obj_value(seed))) > 150:
            vspec = ('text', 'x')
        secret = secret_of(rng)
        run_case(ctx, ('tamper', name, vspec, secret, seed, not ctx.quick and k % 5 == 0))
        run_case(ctx, ('wire', name, vspec, secret, seed))
        run_case(ctx, ('secrets', name, vspec, secret, seed))
    for k in range(ctx.scale(600, 6000)):
        v = text_value(rng)[:200]
        if 'sig' in v or ';' not in v:
            run_case(ctx, ('plain', name_of(rng), v, secret_of(rng)))
