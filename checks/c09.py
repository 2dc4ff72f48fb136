"""C09: each response is a function of its own request only; serving N requests keeps a constant number of per-request objects alive."""
import base64
import email.utils
import gc
import os
import random
import sys
import threading
import weakref

from vlib import autodict as AD
from vlib import core
from vlib import farm
from vlib.ref import Reference

PID = 'C09'
LEVEL = 'exploration'
RULE = ('a case is a history of requests (kind, modifiers) served by one application on one thread, each response and everything its handlers and hooks saw compared with the same request '
        'served by a fresh application in a fresh process; non-trivial if it has at least two requests. A retention case is one request kind served thousands of times')
ASSUMPTIONS = ['what an application itself keeps (constants it mutates, listeners and hooks it registers, exceptions it stores) is not per-request state of the framework',
               'a file served by static_file is not changed during a history',
               'retention is measured by weak references to environ, input stream and handler-made objects, and by the allocated blocks of the interpreter after thousands of requests with unique data; '
               'a cache that stays below 4000 entries is a constant']
CONFIGS = {
    'plain': {},
    'full': dict(max_body_size=2000),
    'small': dict(max_body_size=2000, max_memfile_size=64),
    'debug': dict(debug=True, max_body_size=2000),
    'nocatch': dict(catchall=False, max_body_size=2000),
    'script': dict(allow_x_script_name=True, app_name_header='HTTP_X_APP_NAME', max_body_size=2000),
    'hosts': dict(domain_map=farm.by_host, app_name_header='HTTP_X_APP_NAME', max_body_size=2000),
}
REQUIRED = ('pairs', 'triples_or_longer', 'references', 'compared', 'errors_compared', 'threads_used', 'weakrefs_created', 'retention_kinds', 'variants', 'block_windows', 'disconnects', 'module_app_requests',
            'undecodable_paths', 'critical_pages', 'oversized_bodies', 'malformed_bodies', 'requests_before_aged_histories')


DEFAULT = {}


def new_app(config):
    import ombott
    if config == 'default':
        # there is one only: it serves all the histories
        if DEFAULT.get('pid') != os.getpid():
            DEFAULT.update(pid=os.getpid(), app=farm.build(app=ombott.default_app()))
        return DEFAULT['app']
    return farm.build(dict(CONFIGS[config]), errors='all' if config in ('small', 'full', 'debug') else True)


def serve_alone(config, kind, mods):
    app = new_app(config)
    env = farm.make_env(kind, mods, farm.PLACE)
    return outcome(farm.serve(app, env, mods), env, farm.PLACE)[0]


def outcome(res, env, n):
    return farm.normal(farm.outcome(res, env), n)


def differ(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return 'at %d: got ...%s...\n   alone ...%s...' % (i, a[max(0, i - 120):i + 200], b[max(0, i - 120):i + 200])


def mods_of(rng):
    r = rng.random()
    if r < .4:
        return ()
    return tuple(sorted(rng.sample(farm.MODS, 1 if r < .8 else rng.choice([2, 3]))))


def serve_history(ctx, ref, app, config, history, case, start=1, thread=None):
    """history: [(kind, mods)] served one after another by app."""
    for i, (kind, mods) in enumerate(history):
        n = farm.nonce(start + i)
        env = farm.make_env(kind, mods, n)
        res = farm.serve(app, env, mods)
        got, others = outcome(res, env, n)
        want = ref.get(config, kind, mods)
        ctx.obs['compared'] += 1
        code = res.code
        if code is not None and code >= 400:
            ctx.obs['errors_compared'] += 1
            if kind == 'badpath':
                ctx.obs['undecodable_paths'] += 1
            elif kind.startswith('too_large'):
                ctx.obs['oversized_bodies'] += code == 413
            elif kind.startswith('bad_'):
                ctx.obs['malformed_bodies'] += 1
            elif kind in ('h_critical', 'h_badcharset'):
                ctx.obs['critical_pages'] += 1
        if 'srfail' in mods or 'noiter' in mods:
            ctx.obs['disconnects'] += 1
        info = 'config %s, request %d of %r: %r\n' % (config, i, [k for k, _ in history[max(0, i - 3):i + 1]], (kind, mods))
        if others:
            t = farm.text_of(farm.outcome(res, env))
            o = sorted(others)[0]
            j = t.index(o)
            ctx.violation('carry-over/' + kind, info + 'data of another request: ...%s...' % t[max(0, j - 200):j + 100], case)
            return False
        if got != want:
            ctx.violation('differs/' + kind, info + differ(got, want), case)
            return False
    return True


def run_case(ctx, case, ref=None):
    what = case[0]
    if what == 'retain':
        return retain(ctx, case)
    if what == 'blocks':
        return blocks(ctx, case)
    if what == 'aged':
        return aged(ctx, case, ref)
    own = ref is None
    if own:
        ref = Reference(serve_alone)
    try:
        _, config, history, split = case
        ctx.seen(case, len(history) > 1, what)
        app = new_app(config)
        if config == 'default':
            ctx.obs['module_app_requests'] += len(history)
        if split is None:
            serve_history(ctx, ref, app, config, history, case)
        else:
            # requests of this history on worker threads, one at a time; each worker serves several
            ctx.obs['threads_used'] += 1
            err = []

            def work(part, start):
                try:
                    serve_history(ctx, ref, app, config, part, case, start)
                except BaseException as e:
                    err.append(e)
            for a, b in zip((0,) + split, split + (len(history),)):
                if err:
                    break
                t = threading.Thread(target=work, args=(history[a:b], a + 1))
                t.start()
                t.join()
            if err:
                raise err[0]
    finally:
        if own:
            ref.close()


# ---------------------------------------------------------------- retention
ODD = ['HTTP_' + h for h in ('IF_NONE_MATCH', 'USER_AGENT', 'REFERER', 'ACCEPT_LANGUAGE', 'ACCEPT_ENCODING', 'ORIGIN', 'X_FORWARDED_FOR', 'X_REQUESTED_WITH', 'X_REQUEST_ID', 'IF_MATCH', 'FROM', 'VIA', 'X_APP_NAME',
                             'IF_RANGE', 'CACHE_CONTROL', 'PRAGMA', 'FORWARDED', 'X_REAL_IP', 'DNT', 'X_FORWARDED_PORT', 'X_VERIF_ODD')] + ['REMOTE_ADDR', 'REMOTE_PORT', 'REMOTE_HOST', 'REMOTE_USER', 'SERVER_NAME', 'SERVER_SOFTWARE']


def odd(env, n):
    """A value of its own in every header and variable that does not decide what is served."""
    v = farm.nonce(n)
    for k in ODD:
        if k not in env or k == 'SERVER_NAME':
            env[k] = '%s-%s' % (k.lower(), v)
    env.setdefault('HTTP_AUTHORIZATION', 'Basic ' + base64.b64encode(('user%s:pw%s' % (v, v)).encode()).decode())
    env.setdefault('HTTP_IF_MODIFIED_SINCE', email.utils.formatdate(86400 + n, usegmt=True))     # valid, and older than any file
    env.setdefault('HTTP_IF_UNMODIFIED_SINCE', email.utils.formatdate(2000000000 + n, usegmt=True))
    env.setdefault('HTTP_ACCEPT', 'text/%s, */*' % v)
    if env['REQUEST_METHOD'] in ('GET', 'HEAD'):
        env.setdefault('HTTP_RANGE', 'bytes=%d-' % (n % 7) if n % 3 else 'items=%d-' % n)
    r = random.Random(n)
    w = AD.word(r).upper().replace('-', '_')
    if w.replace('_', '').isalnum() and w.isascii():
        env.setdefault(w if w.startswith('HTTP_') else 'HTTP_' + w, v)


def one(app, kind, mods, n, refs=None, light=False, unique=False):
    env = farm.make_env(kind, mods, farm.nonce(n))
    if light:
        env['vx.log'] = None
    if unique:
        odd(env, n)
    if refs is not None:
        refs.append(weakref.ref(env))
        refs.append(weakref.ref(env['wsgi.input']))
        refs.append(weakref.ref(env['wsgi.errors']))
    farm.serve(app, env, mods)


def retain(ctx, case):
    """Objects of N requests still alive: must not grow with N."""
    _, config, kinds, mods, n = case
    refs = []

    def watch(o):
        refs.append(weakref.ref(o))
        return o
    app = farm.build(dict(CONFIGS[config]), watch=watch)
    alive = []
    k = 0
    for rounds in (n, n, 2 * n):
        for _ in range(rounds):
            one(app, kinds[k % len(kinds)], mods, k + 1, refs)
            k += 1
        gc.collect()
        alive.append((k, sum(r() is not None for r in refs)))
    ctx.obs['weakrefs_created'] += len(refs)
    ctx.obs['max_alive'] = max(ctx.obs['max_alive'], alive[-1][1])
    ctx.obs['retention_kinds'] += len(kinds)
    ctx.seen(case, True, 'retain')
    if alive[-1][1] > max(16, alive[0][1] + n // 2):
        kept = [type(r()).__name__ for r in refs if r() is not None]
        ctx.violation('retained-objects', 'kinds %r mods %r config %s: (requests, objects alive) %r, alive: %r' % (kinds, mods, config, alive, {t: kept.count(t) for t in set(kept)}), case)


def blocks(ctx, case):
    """Memory blocks after N, 2N requests with unique data."""
    _, config, kinds, mods, n = case[:5]
    unique = case[5:] == ('odd',)
    app = farm.build(dict(CONFIGS[config]), watch=lambda o: o)
    k = 0
    marks = []
    rounds = [n, n // 2, n // 2, n // 2]
    for r in rounds:
        for _ in range(r):
            k += 1
            one(app, kinds[k % len(kinds)], mods, k, light=k % 50 > len(kinds), unique=unique)
        gc.collect()
        marks.append(sys.getallocatedblocks())
        if len(marks) > 1:
            ctx.obs['block_windows'] += 1
    growth = [b - a for a, b in zip(marks, marks[1:])]
    ctx.obs['max_steady_growth_blocks'] = max(ctx.obs['max_steady_growth_blocks'], min(growth))
    ctx.seen(case, True, 'blocks')
    ctx.obs['retention_kinds'] += len(kinds)
    if min(growth) > .4 * (n // 2) / len(kinds):     # one block for every other request of one of the kinds
        ctx.violation('retained-memory', 'kinds %r mods %r config %s: blocks kept in three windows of %d requests after %d: %r' % (kinds, mods, config, n // 2, n, growth), case)


def aged(ctx, case, ref=None):
    """An application that has been serving for long: thousands of requests, then a compared history."""
    _, config, kinds, n, history = case
    own = ref is None
    if own:
        ref = Reference(serve_alone)
    try:
        app = new_app(config)
        for k in range(n):
            one(app, kinds[k % len(kinds)], (), 1000 + k, light=True)
        ctx.obs['requests_before_aged_histories'] += n
        ctx.seen(case, True, 'aged')
        serve_history(ctx, ref, app, config, history, case, 1000 + n)
    finally:
        if own:
            ref.close()


# ---------------------------------------------------------------- shards
def shards(ctx):
    q = ctx.quick
    return [('pairs', i) for i in range(4 if q else 16)] + [('rand', i) for i in range(6 if q else 32)] + [('blocks', i) for i in range(6 if q else 12)]


def run_shard(ctx, shard):
    kind, idx = shard
    rng = ctx.rng
    if kind == 'blocks':
        nsh = ctx.scale(6, 12)
        for i, k in enumerate(farm.KINDS):
            if i % nsh == idx:
                config = 'full' if i % 2 else 'plain'
                run_case(ctx, ('retain', config, (k,), (), ctx.scale(60, 600)))
                if not ctx.quick:
                    for m in ('HEAD', 'json', 'srfail', 'noiter', 'signed'):
                        run_case(ctx, ('retain', 'small', (k,), (m,), 200))
        for j, (c, m) in enumerate((c, m) for c in CONFIGS for m in (('json',), ('srfail',), ('noiter',), ('cookie', 'hookcookie', 'aftercookie'))):
            if j % nsh == idx or not ctx.quick:
                ks = tuple(rng.sample(farm.KINDS, 12))
                run_case(ctx, ('retain', c, ks, m, ctx.scale(120, 1200)))
        # unique data in every slot; groups of kinds, so that the windows lie beyond any small bounded cache
        groups = [farm.KINDS[i::nsh * 2] for i in range(nsh * 2)][idx * 2:idx * 2 + 2]
        for g in groups:
            run_case(ctx, ('blocks', 'full', tuple(g), ('cookie', 'xhost'), ctx.scale(4400, 24000)))
            run_case(ctx, ('blocks', 'script' if idx % 2 else 'plain', tuple(g), ('cookie',), ctx.scale(4400, 24000), 'odd'))
        return
    ref = Reference(serve_alone)
    try:
        if kind == 'pairs':
            # every ordered pair of kinds: a plain first request, then the second
            nsh = ctx.scale(4, 16)
            for i, a in enumerate(farm.KINDS):
                if i % nsh != idx:
                    continue
                for j, b in enumerate(farm.KINDS):
                    for config in [('full', 'small')[(i + j) % 2]] if ctx.quick else ['full', 'small', 'plain', 'debug', 'nocatch']:
                        m = mods_of(rng) if not ctx.quick or rng.random() < .3 else ()
                        ctx.obs['pairs'] += 1
                        run_case(ctx, ('history', config, ((a, m), (b, ())), None), ref)
            # the same request again and again, with one thing changed at a time
            for i, a in enumerate(farm.KINDS):
                if i % nsh != idx:
                    continue
                ms = [(), ('json',), ('HEAD',)] + [(m,) for m in sorted(set(farm.MODS)) if m not in ('same', 'json', 'HEAD')]
                rng.shuffle(ms)
                hist = []
                for m in ms:
                    hist.append((a, tuple(sorted(m + ('same',)))))
                    if rng.random() < .3:
                        hist.append((a, ('same',)))
                ctx.obs['variants'] += len(hist)
                run_case(ctx, ('history', rng.choice(['full', 'small', 'plain', 'debug', 'script']), tuple(hist), None), ref)
            return
        names = list(CONFIGS) + ['default']
        for k in range(ctx.scale(2, 3)):
            ks = rng.sample(farm.KINDS, rng.choice([1, 3, 10]))
            hist = tuple((a, mods_of(rng)) for a in rng.sample(farm.KINDS, 15 if ctx.quick else 40))
            run_case(ctx, ('aged', rng.choice(names), tuple(ks), int(10 ** rng.uniform(3, ctx.scale(3.8, 5))) if k else ctx.scale(4000, 70000), hist), ref)
        for k in range(ctx.scale(45, 1000)):
            config = rng.choice(names)
            pool = rng.sample(farm.KINDS, rng.choice([3, 8, 30]))
            mp = [mods_of(rng) for _ in range(4)] + [()]
            progs = [rng.randrange(farm.NPROG) for _ in range(12)]
            hist = []
            for _ in range(rng.choice([3, 8, 25, 60])):
                m = rng.choice(mp)
                if k % 2 and rng.random() < .7:
                    hist.append(('prog', tuple(sorted(set(m) - {'noqs'} | {'k%d' % rng.choice(progs)}))))
                else:
                    hist.append((rng.choice(pool), m))
            if config == 'hosts':
                hist = [(a, tuple(sorted(set(m) - {'nohost', 'xhost'} | set(rng.choice([(), ('nohost',), ('xhost',), ('nohost', 'xhost')]))))) for a, m in hist]
            hist = tuple(hist)
            split = None
            if rng.random() < .35:
                split = tuple(sorted(rng.sample(range(1, len(hist)), min(len(hist) - 1, rng.choice([1, 2, 3])))))
            ctx.obs['triples_or_longer'] += 1
            run_case(ctx, ('history', config, hist, split), ref)
    finally:
        ctx.obs['references'] += len(ref.cache)
        ref.close()
