"""C17: range and conditional requests to static_file describe exactly the bytes they deliver."""
import calendar
import email.utils
import os
import random
import re
import shutil
import tempfile
import time

from vlib import autodict as AD
from vlib import core
from vlib import wsgi as W

W.NOISE = True
W.AMBIENT = True
W.NO_NOISE = {'HTTP_IF_RANGE', 'HTTP_RANGE', 'HTTP_IF_MODIFIED_SINCE', 'HTTP_IF_MATCH', 'HTTP_IF_NONE_MATCH', 'HTTP_IF_UNMODIFIED_SINCE'}     # other preconditions are not described by the property
PID = 'C17'
LEVEL = 'exploration'
RULE = ('a case is a real file (length, modification time, name), a method, and the values of Range and If-Modified-Since (plus server time zone, delivery options, other responses of the same file streamed in between); '
        'the response is observed at the WSGI boundary chunk by chunk and compared with an independent reading of RFC 7233/7232 against the bytes on disk. Every case is non-trivial')
ASSUMPTIONS = ['a Range header that is not in the RFC 7233 grammar (and loose spellings: other case, empty list elements) may be answered by 416 or by any 206 that is consistent in itself',
               'If-Modified-Since has a resolution of one second; malformed dates are ignored; dates with numeric zones may be honoured or ignored',
               'the streaming buffer is 1 MiB', 'the file does not change while it is served']
REQUIRED = ('partial', 'partial_big', 'multi_chunk', 'unsatisfiable', 'junk_ranges', 'junk_416', 'suffix_ranges', 'suffix_longer', 'open_ranges', 'clipped', 'multi_ranges', 'whole', 'whole_big', 'empty_file', 'head', 'head_partial', 'head_304',
            'not_modified', 'modified', 'zones', 'date_rfc1123', 'date_rfc850', 'date_asctime', 'interleaved', 'rewritten', 'file_wrapper', 'echoed_last_modified', 'bad_dates', 'huge_numbers', 'loose_ranges', 'other_preconditions')

MIB = 1 << 20
SMALL = list(range(0, 13)) + [64, 255, 1000]
BIG = [65535, 65536, 65537, MIB - 1, MIB, MIB + 1, 2 * MIB - 1, 2 * MIB, 2 * MIB + 1, 3 * MIB + 5]
NAMES = ['f.bin', 'f.txt', 'f.tar.gz', 'f', 'f.html', 'F.JPG', '\u0444.txt', 'f f.css']


def content(n):
    """Bytes that tell their offset."""
    r = random.Random('content%d' % n)
    if n <= 70000:
        return bytes(r.randrange(256) for _ in range(n))
    return r.randbytes(n) if hasattr(r, 'randbytes') else bytes(bytearray(r.getrandbits(8) for _ in range(n)))


class Bed:
    """A directory with files and an application that serves them."""

    def __init__(self):
        import ombott
        self.dir = tempfile.mkdtemp(prefix='c17.')
        self.files = {}
        self.app = app = ombott.Ombott()
        self.opts = {}
        self.how = 'return'

        def serve(name):
            r = ombott.static_file(name, root=self.dir, **self.opts)
            if self.how == 'raise':
                raise r
            return r
        app.route('/s/<name:path>', ['GET', 'HEAD', 'POST'], serve)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def file(self, n, name='f.bin', mtime_ns=None):
        name = '%d-%s' % (n, name)
        if name not in self.files:
            data = content(n)
            with open(os.path.join(self.dir, name), 'wb') as f:
                f.write(data)
            self.files[name] = data
            if mtime_ns is None:
                mtime_ns = 1500000000 * 10 ** 9
        if mtime_ns is not None:
            os.utime(os.path.join(self.dir, name), ns=(mtime_ns, mtime_ns))
        return name, self.files[name]


# ---------------------------------------------------------------- the reference
def parse_range(header):
    """-> ('strict'|'loose', first spec) or ('junk', None); spec = (first, last) | (first, None) | (None, suffix)"""
    m = re.fullmatch(r'(bytes)=(.*)', header, re.I | re.S)
    if not m:
        return 'junk', None
    kind = 'strict' if m.group(1) == 'bytes' else 'loose'
    specs = []
    parts = m.group(2).split(',')
    for i, p in enumerate(parts):
        q = p.strip(' \t')
        if q == '':
            kind = 'loose'
            continue
        if q != p and i == 0 and p[:1] in ' \t':
            kind = 'loose'      # no white space between = and the first range
        sm = re.fullmatch(r'([0-9]*)-([0-9]*)', q)
        if not sm or not (sm.group(1) or sm.group(2)):
            return 'junk', None
        a, b = number(sm.group(1)), number(sm.group(2))
        if a is not None and b is not None and a > b:
            return 'junk', None
        specs.append((a, b))
    if not specs:
        return 'junk', None
    if header[-1:] in ' \t' or header[-1:] == ',':
        kind = 'loose'
    return kind, specs[0]


def number(digits):
    if not digits:
        return None
    digits = digits.lstrip('0') or '0'
    return int(digits) if len(digits) < 100 else 10 ** 100      # any file ends before


def slice_of(spec, n):
    """(start, stop) the spec means for a file of n bytes, or None if it can not be satisfied."""
    a, b = spec
    if a is None:
        if b == 0 or n == 0:
            return None
        return max(0, n - b), n
    if a >= n:
        return None
    return a, n if b is None else min(b + 1, n)


def consistent(res, data, slice_=None):
    """Problem of a 206 as description of a slice of data, or None."""
    cr = res.header_all('Content-Range')
    m = re.fullmatch(r'bytes ([0-9]+)-([0-9]+)/([0-9]+)', cr[0]) if len(cr) == 1 else None
    if not m:
        return 'Content-Range %r' % (cr,)
    a, b, n = map(int, m.groups())
    if n != len(data) or not a <= b < n:
        return 'Content-Range %r of a file of %d bytes' % (cr[0], len(data))
    if slice_ is not None and (a, b + 1) != slice_:
        return 'Content-Range %r, requested is %d-%d of %d' % (cr[0], slice_[0], slice_[1] - 1, len(data))
    if res.header_all('Content-Length') != [str(b + 1 - a)]:
        return 'Content-Length %r with Content-Range %r' % (res.header_all('Content-Length'), cr[0])
    return None


def differs(got, want):
    if got == want:
        return None
    k = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
    return '%d bytes delivered, %d described; they differ from offset %d on' % (len(got), len(want), k)


def no_date(headers):
    return sorted((k.lower(), v) for k, v in headers if k.lower() != 'date')


# ---------------------------------------------------------------- one request
def bed_of(ctx):
    b = ctx.__dict__.get('bed')
    if b is None:
        b = ctx.bed = Bed()
    return b


def env_of(name, method, rng, ims, wrapper):
    h = {}
    if rng is not None:
        h['Range'] = rng
    if ims is not None:
        h['If-Modified-Since'] = ims
    extra = {}
    if wrapper:
        def fw(f, size=8192):
            return iter(lambda: f.read(size), b'')
        extra['wsgi.file_wrapper'] = fw
    return W.environ(method, '/s/' + name, headers=h, extra=extra)


def judge(ctx, case, res, data, rng, fresh, who):
    """GET response against the expectation. fresh: True -> 304, False -> not 304, None -> either."""
    n = len(data)

    def bad(key, msg):
        ctx.violation(key, '%s: file of %d bytes, Range=%r: %s [%s %s]' % (who, n, None if rng is None else rng[:80], msg, res.status, no_date(res.headers)), case)
    if res.escaped is not None or res.iter_exc is not None or res.code is None:
        return bad('failed', 'exception %r' % (res.escaped or res.iter_exc,))
    p = W.validate(res)
    if p:
        return bad('malformed', repr(p))
    code = res.code
    if code == 304:
        if fresh is False:
            return bad('stale-304', '304 for a file newer than the date')
        if res.body:
            return bad('304-body', 'body %r' % res.body[:50])
        ctx.obs['not_modified'] += 1
        return
    if fresh is True:
        return bad('not-304', 'the date is not older than the file')
    if fresh is False:
        ctx.obs['modified'] += 1
    if not rng:
        if rng == '' and code == 416:
            return
        if code != 200:
            return bad('not-200', 'whole file expected')
        d = differs(res.body, data)
        if d:
            return bad('whole-differs', d)
        if res.header_all('Content-Length') != [str(n)]:
            return bad('whole-length', 'Content-Length %r' % res.header_all('Content-Length'))
        if res.header_all('Content-Range'):
            return bad('whole-range', 'Content-Range without Range')
        ctx.obs['whole'] += 1
        ctx.obs['whole_big'] += n > MIB
        ctx.obs['empty_file'] += n == 0
        return
    if code not in (206, 416):
        return bad('neither-206-nor-416', 'status %s' % res.status)
    kind, spec = parse_range(rng)
    want = slice_of(spec, n) if spec else None
    if code == 416:
        if kind == 'strict' and want:
            return bad('refused', '416 for a range that can be satisfied: %d-%d' % (want[0], want[1] - 1))
        ctx.obs['unsatisfiable' if kind != 'junk' else 'junk_416'] += 1
    else:
        if kind != 'junk' and not want:
            return bad('206-unsatisfiable', '206 for a range that can not be satisfied')
        d = consistent(res, data, want)
        if d:
            return bad('wrong-slice', d)
        a, b = want or [int(x) for x in re.findall('[0-9]+', res.header('Content-Range'))[:2]]
        if not want:
            b += 1
        d = differs(res.body, data[a:b])
        if d:
            return bad('slice-differs', d)
        top = max([len(c) for c in res.chunks] or [0])
        if top > MIB:
            return bad('chunk-too-big', 'a chunk of %d bytes' % top)
        ctx.obs['partial'] += 1
        ctx.obs['partial_big'] += b - a > MIB
        ctx.obs['multi_chunk'] += len(res.chunks) > 1
        if spec:
            ctx.obs['suffix_ranges'] += spec[0] is None
            ctx.obs['suffix_longer'] += spec[0] is None and spec[1] > n
            ctx.obs['open_ranges'] += spec[1] is None
            ctx.obs['clipped'] += spec[0] is not None and spec[1] is not None and spec[1] >= n
        ctx.obs['multi_ranges'] += ',' in rng
    ctx.obs['junk_ranges'] += kind == 'junk'
    ctx.obs['loose_ranges'] += kind == 'loose'
    ctx.obs['huge_numbers'] += len(rng) > 40


class Sparse:
    """content of a file with holes: zeroes with a text at some offsets"""

    def __init__(self, n, marks):
        self.n, self.marks = n, marks

    def __len__(self):
        return self.n

    def __getitem__(self, s):
        a, b, _ = s.indices(self.n)
        out = bytearray(b - a)
        for at, text in self.marks.items():
            for i, c in enumerate(text):
                if a <= at + i < b:
                    out[at + i - a] = c
        return bytes(out)


HUGE = 5 * 10 ** 9 + 77


def sparse_file(bed):
    if 'huge' not in bed.files:
        marks = {}
        for at in [0, 5, 10 ** 6, 10 ** 8, 10 ** 9, 2 ** 30, 2 ** 31 - 20, 2 ** 31, 2 ** 32 - 20, 2 ** 32 + 9, 123456789, 1234567890, 500000000, 4 * 10 ** 9, HUGE - 90, HUGE - 20]:
            if not any(abs(at - o) < 16 for o in marks):
                marks[at] = b'<%014d' % at
        path = os.path.join(bed.dir, 'huge')
        with open(path, 'wb') as f:
            f.truncate(HUGE)
            for at, text in marks.items():
                f.seek(at)
                f.write(text)
        os.utime(path, (1500000000, 1500000000))
        bed.files['huge'] = Sparse(HUGE, marks)
    return bed.files['huge']


def run_sparse(ctx, case):
    """A file of several GB (with holes): offsets of ten digits, beyond 31 and 32 bits."""
    _, rng = case
    bed = bed_of(ctx)
    try:
        data = sparse_file(bed)
    except OSError:
        ctx.obs['no_sparse_files'] += 1
        return
    bed.opts, bed.how = {}, 'return'
    ctx.seen(case, True, 'sparse')
    if rng is not None:
        get = W.call(bed.app, env_of('huge', 'GET', rng, None, False))
        if get.code == 200:
            return ctx.violation('neither-206-nor-416', 'file of %d bytes, Range=%r: %s' % (HUGE, rng, get.status), case)
        judge(ctx, case, get, data, rng, None, 'huge file')
    head = W.call(bed.app, env_of('huge', 'HEAD', rng, None, False))
    if head.body:
        ctx.violation('head-body', 'HEAD delivered %d bytes (Range=%r)' % (len(head.body), rng), case)
    if rng is None and head.header_all('Content-Length') != [str(HUGE)]:
        ctx.violation('whole-length', 'file of %d bytes: HEAD: %s' % (HUGE, no_date(head.headers)), case)
    elif rng is not None and no_date(head.headers) != no_date(get.headers):
        ctx.violation('head-differs', 'file of %d bytes, Range=%r: HEAD: %s GET: %s' % (HUGE, rng, no_date(head.headers), no_date(get.headers)), case)
    ctx.obs['huge_file'] += 1


def huge_range(rng):
    at = rng.choice([0, 10 ** 8, 10 ** 9, 2 ** 30, 2 ** 31, 2 ** 32, 1234567890, 4 * 10 ** 9, HUGE - 1, HUGE - 40, HUGE, rng.randrange(HUGE)]) + rng.randrange(-30, 31)
    at = max(0, at)
    k = rng.random()
    if k < .6:
        return 'bytes=%d-%d' % (at, at + rng.choice([0, 1, 9, 40, 5000, MIB + 3]))
    if k < .8:
        return 'bytes=-%d' % rng.choice([1, 20, 90, 3000, 2 * MIB])
    if k < .9:
        return 'bytes=%d-' % (HUGE - rng.choice([1, 30, 2 * MIB, 0, -5]))
    return 'bytes=%d-%d,0-5' % (at, at + 12)


COND = {'If-Range': ['Mon, 01 Jan 2001 00:00:00 GMT', '"etag"', 'W/"x"', 'x', '', 'LM', 'Sat, 01 Jan 2033 00:00:00 GMT'], 'If-None-Match': ['*', '"x"', 'W/"x", "y"'], 'If-Match': ['*', '"x"'],
        'If-Unmodified-Since': ['LM', 'Mon, 01 Jan 2001 00:00:00 GMT', 'Sat, 01 Jan 2033 00:00:00 GMT', 'x'], 'If-Modified-Since': ['LM', 'Mon, 01 Jan 2001 00:00:00 GMT', 'Sat, 01 Jan 2033 00:00:00 GMT']}


def run_cond(ctx, case):
    """Other preconditions: the property does not say what they do, but what is delivered has to be what is described."""
    _, n, cond, rng = case
    bed = bed_of(ctx)
    name, data = bed.file(n)
    bed.opts, bed.how = {}, 'return'
    ctx.seen(case, True, 'conditions')
    lm = W.call(bed.app, env_of(name, 'HEAD', None, None, False)).header('Last-Modified')
    res = {}
    for method in ('GET', 'HEAD'):
        env = env_of(name, method, rng, None, False)
        for k, v in cond:
            env['HTTP_' + k.upper().replace('-', '_')] = lm if v == 'LM' else v
        res[method] = W.call(bed.app, env)
    get, head = res['GET'], res['HEAD']
    ctx.obs['other_preconditions'] += 1

    def bad(key, msg):
        ctx.violation(key, 'file of %d bytes, Range=%r, %r: %s [%s %s]' % (n, rng, cond, msg, get.status, no_date(get.headers)), case)
    if get.escaped is not None or get.iter_exc is not None or get.code not in (200, 206, 304, 412, 416):
        return bad('failed', get.brief()[:300])
    if get.code == 200:
        d = differs(get.body, data)
        if d or get.header_all('Content-Length') != [str(n)] or get.header_all('Content-Range'):
            return bad('whole-differs', d or 'headers')
    elif get.code == 206:
        d = consistent(get, data)
        if d:
            return bad('wrong-slice', d)
        a, b = [int(x) for x in re.findall('[0-9]+', get.header('Content-Range'))[:2]]
        d = differs(get.body, data[a:b + 1])
        if d:
            return bad('slice-differs', d)
    elif get.code == 304 and get.body:
        return bad('304-body', 'body %r' % get.body[:50])
    if head.body:
        bad('head-body', 'HEAD delivered %d bytes' % len(head.body))
    if head.status != get.status or no_date(head.headers) != no_date(get.headers):
        bad('head-differs', 'HEAD: %s %s' % (head.status, no_date(head.headers)))


def run_case(ctx, case):
    if case[0] == 'sparse':
        return run_sparse(ctx, case)
    if case[0] == 'cond':
        return run_cond(ctx, case)
    if case[0] == 'inter':
        return run_interleaved(ctx, case)
    if case[0] == 'rewrite':
        return run_rewrite(ctx, case)
    _, n, fname, mtime_ns, rng, ims, fresh, opts, wrapper = case
    bed = bed_of(ctx)
    name, data = bed.file(n, fname, mtime_ns)
    bed.opts = dict(opts)
    bed.how = bed.opts.pop('how', 'return')
    ctx.seen(case, True, 'range' if rng else 'date' if ims else 'whole')
    get = W.call(bed.app, env_of(name, 'GET', rng, ims, wrapper))
    ctx.obs['file_wrapper'] += bool(wrapper)
    judge(ctx, case, get, data, rng, fresh, 'GET')
    head = W.call(bed.app, env_of(name, 'HEAD', rng, ims, wrapper))
    ctx.obs['head'] += 1
    ctx.obs['head_partial'] += head.code == 206
    ctx.obs['head_304'] += head.code == 304
    if head.escaped is not None or head.iter_exc is not None:
        return ctx.violation('failed', 'HEAD: %s' % head.brief(), case)
    if head.body:
        ctx.violation('head-body', 'HEAD delivered %d bytes (Range=%r If-Modified-Since=%r)' % (len(head.body), rng, ims), case)
    if head.status != get.status or no_date(head.headers) != no_date(get.headers):
        ctx.violation('head-differs', 'Range=%r If-Modified-Since=%r: HEAD: %s %s, GET: %s %s' % (rng, ims, head.status, no_date(head.headers), get.status, no_date(get.headers)), case)
    lm = get.header('Last-Modified')
    if lm and mtime_ns is not None and ims is None and get.code in (200, 206):
        again = W.call(bed.app, env_of(name, 'GET', rng, lm, wrapper))
        ctx.obs['echoed_last_modified'] += 1
        judge(ctx, case, again, data, rng, True, 'Last-Modified %s sent back' % lm)


def run_interleaved(ctx, case):
    """Several responses in flight, their chunks drawn in mixed order."""
    _, reqs, seed = case
    bed = bed_of(ctx)
    bed.opts, bed.how = {}, 'return'
    ctx.seen(case, True, 'interleaved')
    live, done = [], []
    for n, rng in reqs:
        name, data = bed.file(n)
        res = W.Result()
        live.append((W.steps(bed.app, env_of(name, 'GET', rng, None, False), res), res, data, rng))
    r = random.Random(seed)
    while live:
        i = r.randrange(len(live))
        if next(live[i][0], None) is None:
            done.append(live.pop(i))
    for _, res, data, rng in done:
        ctx.obs['interleaved'] += 1
        judge(ctx, case, res, data, rng, False if rng is None else None, 'interleaved')


def run_rewrite(ctx, case):
    """One name, whose file is replaced between the requests."""
    _, steps = case
    bed = bed_of(ctx)
    bed.opts, bed.how = {}, 'return'
    ctx.seen(case, True, 'rewrite')
    path = os.path.join(bed.dir, 'rewritten.bin')
    for n, salt, mtime, rng, ims_delta in steps:
        data = bytes((i * 7 + salt) % 256 for i in range(n))
        with open(path + '.new', 'wb') as f:
            f.write(data)
        os.utime(path + '.new', (mtime, mtime))
        os.replace(path + '.new', path)
        ims = None if ims_delta is None else fmt(mtime + ims_delta, 'rfc1123')
        for method in ('GET', 'HEAD'):
            res = W.call(bed.app, env_of('rewritten.bin', method, rng, ims, False))
            if method == 'GET':
                get = res
                judge(ctx, case, res, data, rng, None if ims is None and rng else ims_delta is not None and ims_delta >= 0, 'rewritten file')
            elif no_date(res.headers) != no_date(get.headers):
                ctx.violation('head-differs', 'rewritten file: HEAD: %s, GET: %s' % (no_date(res.headers), no_date(get.headers)), case)
        ctx.obs['rewritten'] += 1


# ---------------------------------------------------------------- dates
ZONES = ['UTC', 'UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'XYZ-12:45XYD,M9.5.0/2:45,M4.1.0/3:45', 'IST-5:30', 'ABC+11', 'NZST-12NZDT,M9.5.0,M4.1.0/3',
         'Europe/London', 'Europe/Dublin', 'Europe/Moscow', 'America/Caracas', 'Asia/Pyongyang', 'Europe/Lisbon', 'Africa/Casablanca', 'America/New_York', 'Australia/Lord_Howe', 'Asia/Kolkata', 'Pacific/Apia', 'Pacific/Kiritimati']
WD = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
WDL = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


def fmt(t, style):
    y, mo, d, h, mi, s, wd = time.gmtime(t)[:7]
    if style == 'rfc1123':
        return '%s, %02d %s %04d %02d:%02d:%02d GMT' % (WD[wd], d, MON[mo - 1], y, h, mi, s)
    if style == 'rfc850':
        return '%s, %02d-%s-%02d %02d:%02d:%02d GMT' % (WDL[wd], d, MON[mo - 1], y % 100, h, mi, s)
    return '%s %s %2d %02d:%02d:%02d %04d' % (WD[wd], MON[mo - 1], d, h, mi, s, y)


def dated(rng, style, t):
    """-> (header, honoured for certain)"""
    text = fmt(t, style)
    if style == 'rfc1123':
        r = rng.random()
        if r < .06:
            return text + '; length=12', None
        if r < .1:
            return text.replace('GMT', '+0000'), None
        if r < .14:
            off = rng.choice([-720, -300, 60, 330, 765])
            loc = fmt(t + off * 60, style).replace('GMT', '%s%02d%02d' % ('-' if off < 0 else '+', abs(off) // 60, abs(off) % 60))
            return loc, None
        if r < .17:
            return text + ' ', True
    return text, True


BAD_DATES = ['', ' ', 'x', 'Mon', '0', '-1', '1500000000', 'Mon, 99 Foo 2020', ';', '; length=1', 'Sat, 01 Jan 2000', '\xff', 'Sat, 01 Jan 2000 99:99', 'Sat, 01 Xxx 2000 00:00:00 GMT', 'Sat, 01 Jan %s 00:00:00 GMT' % ('9' * 5000), 'Sat, 00 Jan 99999 00:00:00 GMT',
             'Sat, 01 13 2000 00:00:00 GMT', '2030-01-01T00:00:00Z', 'GMT', ',,,', 'Sat, 01 Jan 2000 00:00:00:00:00 GMT', '::', 'Sat, 01 Jan 2000 aa:bb:cc GMT', '\t', '(', '\x00', 'Sat, 1_0 Jan 2_0 00:00:00 GMT']


def mtimes(rng):
    y = rng.choice([1970, 1971, 1985, 1994, 1999, 2000, 2008, 2012, 2016, 2019, 2024, 2030, 2037])
    k = rng.random()
    if k < .3:       # around the changes of the clocks
        base = calendar.timegm((y, rng.choice([3, 4, 9, 10, 11]), rng.randrange(1, 31), rng.randrange(24), 0, 0)) + rng.choice([-1, 0, 1])
    elif k < .4:
        base = calendar.timegm((y, 1, 1, 0, 0, 0)) + rng.choice([-1, 0, 1])
    elif k < .45:
        base = calendar.timegm((rng.choice([1996, 2000, 2004, 2024]), 2, 29, 23, 59, 59)) + rng.choice([0, 1])
    else:
        base = calendar.timegm((y, rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60)))
    base = max(base, 100000)
    return base, rng.choice([0, 0, 1, 500000000, 999000000])


def date_cases(ctx, rng, count):
    for _ in range(count):
        base, frac = mtimes(rng)
        # beyond 2 ** 31 some tools and file systems lose seconds: the file tells
        style = rng.choice(['rfc1123', 'rfc1123', 'rfc850', 'asctime'])
        delta = rng.choice([-1, 0, 1, -1, 0, 1, -3600, 3600, -7200, 7200, -1800, 1800, -59, 59, -86400, 86400, -400 * 86400, 400 * 86400, -10 ** 8, 10 ** 8])
        t = base + delta
        if t < 0:
            continue
        if style == 'rfc850' and not 1971 <= time.gmtime(t)[0] <= 2037:
            style = 'asctime'
        text, certain = dated(rng, style, t)
        fresh = t >= base if certain else (None if t >= base else False)
        ctx.obs['date_' + style] += 1
        yield base * 10 ** 9 + frac, text, fresh
    for d in BAD_DATES:
        ctx.obs['bad_dates'] += 1
        base, frac = mtimes(rng)
        yield base * 10 ** 9 + frac, d, None if any(c.isdigit() for c in d) else False


# ---------------------------------------------------------------- ranges
def junk_range(rng, n):
    if rng.random() < .05:
        w = ''.join(c for c in AD.word(rng) if 31 < ord(c) < 127)
        return rng.choice([w, w + '=0-1', 'bytes=' + w, 'bytes=0-1, ' + w, 'bytes=0-1;' + w, w + ' bytes=0-1', 'bytes=%s-%s' % (w, w), 'bytes=' + '0-1,' * AD.number(rng, 2000) + '0-1'])
    good = rng.choice(['bytes=0-1', 'bytes=1-', 'bytes=-2', 'bytes=0-0,2-3', 'bytes=%d-%d' % (n // 2, n)])
    k = rng.random()
    if k < .5:
        s = list(good)
        for _ in range(rng.choice([1, 1, 2, 3])):
            i = rng.randrange(len(s) + 1)
            op = rng.randrange(3)
            c = rng.choice('0123456789-=, \tbytesx+.e_;/*"\xb2\xa0')
            if op == 0 or i == len(s):
                s.insert(i, c)
            elif op == 1:
                s[i] = c
            elif len(s) > 1:
                del s[i]
        return ''.join(s).strip('\r\n')
    return rng.choice(['bytes', 'bytes=', '=', '-', '0-1', 'bytes 0-1', 'items=0-1', 'none', 'xbytes=0-1', 'bytes=bytes=0-1', 'bytes=0-1bytes=2-3', 'bytes=-', 'bytes=--1', 'bytes=1--1', 'bytes=-1-', 'bytes=a-b', 'bytes=0x1-2', 'bytes=1-0',
                       'bytes=+0-1', 'bytes=0-+1', 'bytes=0_0-1', 'bytes=\xb2-3', 'bytes=1.0-2', 'bytes=0-1-2', 'bytes=0', 'bytes=*', 'bytes=0-*', 'bytes=*/5', 'bytes=,', 'bytes=,,', 'bytes=,0-1', 'bytes=0-1,', 'bytes=0-1,,', 'bytes= 0-1', 'bytes=0 -1',
                       'bytes=0- 1', 'bytes=0-1 ', 'bytes =0-1', 'Bytes=0-1', 'BYTES=0-1', 'bytes=0-1;2-3', 'bytes=0-1,x', 'bytes=x,0-1', 'bytes=1-0,0-1', 'bytes=- 1', 'bytes=-+1', 'bytes=--0', 'bytes=0--', 'bytes=\t0-1', '', ' ', 'bytes=1e1-2', 'bytes=None-1',
                       'bytes=-1-2', 'bytes=5-3', 'bytes=\u0663-5'.encode('utf8').decode('latin1'), 'bytes=0-1\x00', 'bytes=inf-', 'bytes=nan-nan', 'bytes=0-inf', 'bytes=True-', 'bytes=0-18446744073709551616', 'bytes=-18446744073709551616',
                       'bytes=18446744073709551616-', 'bytes=-0', 'bytes=-00', 'bytes=00-01', 'bytes=000000000000000000000000-0000000000000000000001'])


def edge_range(rng, n):
    def pos():
        if rng.random() < .06:
            return AD.number(rng)
        return rng.choice([0, 1, 2, n - 2, n - 1, n, n + 1, n // 2, MIB - 1, MIB, MIB + 1, n - MIB, n - MIB - 1, n - MIB + 1, 65536, 2 * n, 2 ** 31, 2 ** 63, 2 ** 64, 10 ** 30, rng.randrange(n + 2), rng.randrange(n + 2)])
    while True:
        k = rng.random()
        a, b = pos(), pos()
        if a < 0 or b < 0:
            continue
        if k < .25:
            s = '%d-' % a
        elif k < .5:
            s = '-%d' % a
        else:
            if rng.random() < .85:
                a, b = sorted((a, b))
            s = '%d-%d' % (a, b)
        if rng.random() < .1:
            s = re.sub(r'(\d+)', lambda m: '0' * rng.choice([1, 20, 5000]) + m.group(1), s, count=1)
        if rng.random() < .03:
            s = rng.choice(['0-', '-', '1-']) + '9' * rng.choice([20, 400, 4300, 4301, 6000])
        if rng.random() < .25:
            s += rng.choice([',', ', ', ' ,', ' , ', ',\t']) + rng.choice(['0-0', '-1', '5-', '%d-%d' % (n, n + 5), '0-1,3-4,-1', '0-,0-,0-'])
        if rng.random() < .01:
            s += ''.join(rng.choice([',', ', ']) + '%d-%d' % (i % 9, n + i % 5) for i in range(int(10 ** rng.uniform(.5, 3))))
        return 'bytes=' + s


def shards(ctx):
    q = ctx.quick
    return [('small', i) for i in range(4)] + [('edge', i) for i in range(4 if q else 12)] + [('big', i) for i in range(4 if q else 16)] + [('date', i) for i in range(4 if q else 20)]


OPTS = [(), (('download', True),), (('download', 'x y.txt'),), (('mimetype', None),), (('mimetype', 'text/plain'),), (('charset', None),), (('how', 'raise'),)]


def run_shard(ctx, shard):
    kind, idx = shard
    rng = ctx.rng
    tz = os.environ.get('TZ')
    try:
        {'small': small, 'edge': edge, 'big': big, 'date': dates}[kind](ctx, rng, idx)
    finally:
        if tz is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = tz
        time.tzset()
        if ctx.__dict__.get('bed') is not None:
            ctx.bed.close()
            ctx.bed = None


def small(ctx, rng, idx):
    """Every range over every small length."""
    k = 0
    for n in SMALL:
        nums = [''] + ([str(i) for i in range(n + 3)] if n < 13 else [str(i) for i in (0, 1, n - 1, n, n + 1)])
        for a in nums:
            for b in nums:
                k += 1
                if k % 4 != idx:
                    continue
                run_case(ctx, ('one', n, 'f.bin', None, 'bytes=%s-%s' % (a, b), None, None, (), False))
                run_case(ctx, ('one', n, 'f.bin', None, 'bytes=%s-%s, %s-%s' % (a, b, b or '0', a), None, None, (), False))
                if b == '':
                    run_case(ctx, ('one', n, 'f.bin', None, 'bytes=%s-,0-0' % a, None, None, (), True))
        for name in NAMES:
            for opts in OPTS:
                run_case(ctx, ('one', n, name, 10 ** 18 + idx * 10 ** 9, None, None, None, opts, rng.random() < .5))
                run_case(ctx, ('one', n, name, 10 ** 18 + idx * 10 ** 9, edge_range(rng, n), None, None, opts, rng.random() < .5))


def edge(ctx, rng, idx):
    for _ in range(ctx.scale(150, 1500)):
        # names and types made of what the code knows
        w = [''.join(c for c in AD.word(rng) if c.isascii() and (c.isalnum() or c in '._-'))[:60].strip('.') or 'w' for _ in range(2)]
        name = rng.choice(['f.%s' % w[0], '%s.txt' % w[0], w[0] + '.' + w[1], w[0] + 'x', 'f.txt.' + w[0], 'f.' + w[0] + '.gz'])
        opts = rng.choice([(), (), (('mimetype', 'text/' + w[1]),), (('charset', w[1]),), (('download', w[1]),), (('download', True),)])
        n = rng.choice([0, 5, 11, 100])
        run_case(ctx, ('one', n, name, 10 ** 18 + idx * 10 ** 9, rng.choice([None, edge_range(rng, n)]), None, None, opts, rng.random() < .3))
    for _ in range(ctx.scale(400, 4000)):
        n = rng.choice([0, 1, 10, 255, 1000])
        cond = tuple((k, rng.choice(COND[k] if rng.random() < .9 else ['"%s"' % AD.word(rng).encode('ascii', 'ignore').decode().replace('\r', '').replace('\n', '')])) for k in rng.sample(sorted(COND), rng.choice([1, 1, 1, 2, 3])))
        run_case(ctx, ('cond', n, cond, rng.choice([None, edge_range(rng, n), 'bytes=2-4', 'bytes=0-0', 'bytes=-3', junk_range(rng, n)])))
    for _ in range(ctx.scale(9000, 60000)):
        n = rng.choice(SMALL + [65535, 65536, 65537]) if rng.random() < .97 else AD.number(rng, 3 << 20 if rng.random() < .05 else 5000)
        h = junk_range(rng, n) if rng.random() < .6 else edge_range(rng, n)
        run_case(ctx, ('one', n, 'f.bin', None, h, None, None, (), rng.random() < .2))


def big(ctx, rng, idx):
    for n in BIG:
        for h in [None, 'bytes=0-', 'bytes=1-', 'bytes=-1', 'bytes=-%d' % n, 'bytes=-%d' % (n + 1), 'bytes=0-%d' % (n - 1), 'bytes=0-%d' % n, 'bytes=0-0', 'bytes=%d-' % (n - 1), 'bytes=%d-' % n, 'bytes=-%d' % MIB, 'bytes=-%d' % (MIB + 1), 'bytes=0-%d' % MIB,
                  'bytes=0-%d' % (MIB - 1)]:
            if rng.random() < .5:
                run_case(ctx, ('one', n, 'f.bin', None, h, None, None, (), rng.random() < .3))
        for _ in range(ctx.scale(25, 150)):
            run_case(ctx, ('one', n, 'f.bin', None, edge_range(rng, n), None, None, (), rng.random() < .3))
    run_case(ctx, ('sparse', None))
    for k in range(ctx.scale(60, 400)):
        run_case(ctx, ('sparse', huge_range(rng)))
    for k in range(ctx.scale(25, 200)):
        reqs = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            n = rng.choice([10, 65537, MIB + 1, 2 * MIB + 1, 3 * MIB + 5])
            reqs.append((n, rng.choice([None, edge_range(rng, n), 'bytes=0-', 'bytes=1-', 'bytes=-%d' % (n - 1)])))
        run_case(ctx, ('inter', tuple(reqs), rng.randrange(10 ** 6)))
    for k in range(ctx.scale(60, 500)):
        steps = []
        for _ in range(rng.choice([2, 3, 5])):
            n = rng.choice([0, 1, 5, 5, 9, 100])
            steps.append((n, rng.randrange(256), 1500000000 + rng.choice([0, 0, 0, 1, -1, 3600]), rng.choice([None, None, 'bytes=0-', 'bytes=-3', 'bytes=4-50']), rng.choice([None, None, None, -1, 0, 1])))
        run_case(ctx, ('rewrite', tuple(steps)))


def dates(ctx, rng, idx):
    for z in ZONES[idx % 4::4]:
        os.environ['TZ'] = z
        time.tzset()
        ctx.obs['zones'] += 1
        for mtime_ns, text, fresh in date_cases(ctx, rng, ctx.scale(700, 4000)):
            n = rng.choice([0, 1, 10, 1000])
            h = rng.choice([None, None, 'bytes=0-0', 'bytes=-5', 'bytes=99999-', 'x'])
            run_case(ctx, ('one', n, 'f.txt', mtime_ns, h, text, fresh, (), rng.random() < .2))
            if rng.random() < .2:
                run_case(ctx, ('one', n, 'f.txt', mtime_ns, h, None, None, (), False))
