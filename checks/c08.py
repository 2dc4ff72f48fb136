"""C08: concurrent requests of one application never see each other, for the interleavings a controlled scheduler produces."""
import os
import random
import sys
import threading

from vlib import core
from vlib import farm
from vlib import sched
from vlib.ref import Reference

PID = 'C08'
LEVEL = 'exploration'
RULE = ('a case is 2 or 3 requests (kind, modifiers) of one application, each on a thread of its own, and a plan of the places at which control passes from one thread to another; '
        'everything each handler saw and the complete response are compared with the same request served alone in a fresh process; non-trivial if at least one switch happened in the middle of a request')
ASSUMPTIONS = ['switches happen between statements of framework and handler code (opcode granularity for a share of the schedules); free-running threads with a tiny switch interval cover the rest by chance',
               'handlers keep no state of their own beyond constants they do not change',
               'a thread that waits for a lock of a paused one releases the others (observed as stalls)']
REQUIRED = ('schedules', 'schedules_1', 'schedules_2', 'schedules_many', 'exhaustive_pairs', 'three_threads', 'opcode_schedules', 'switches', 'switch_sites', 'stress_requests', 'fresh_threads', 'warm_threads', 'errors_compared',
            'bodies_compared', 'references', 'cold_schedules', 'first_use_steps')
CONFIGS = {
    'plain': ({}, True),
    'full': (dict(max_body_size=2000), 'all'),
    'small': (dict(max_body_size=2000, max_memfile_size=64), 'all'),
    'debug': (dict(debug=True, max_body_size=2000), True),
    'hosts': (dict(domain_map=farm.by_host, app_name_header='HTTP_X_APP_NAME', max_body_size=2000), True),
}


def new_app(config):
    conf, errors = CONFIGS[config]
    return farm.build(dict(conf), errors=errors)


def serve_alone(config, kind, mods):
    app = new_app(config)
    env = farm.make_env(kind, mods, farm.PLACE)
    return farm.normal(farm.outcome(farm.serve(app, env, mods), env), farm.PLACE)[0]


PKG = core.REPO + '/ombott/'
FARM_SKIP = {'<lambda>', 'attempt', 'look', 'point', 'program', 'build', '<listcomp>', '<genexpr>', 'run_program'}


def watched(code):
    fn = code.co_filename
    if fn.startswith(PKG):
        return True
    return fn == farm.__file__ and (code.co_name not in FARM_SKIP or code.co_name == 'run_program')


def apps(ctx):
    c = ctx.__dict__.setdefault('c08', {})
    return c


def app_for(ctx, config):
    c = apps(ctx)
    app, used = c.get(config, (None, 0))
    if app is None or used > 150:
        app, used = new_app(config), 0
        # everything that is set up on first use
        for kind in ('h_plain', 'r404', 'body_form', 'h_cookies'):
            farm.serve(app, farm.make_env(kind, (), farm.nonce(9999999)))
    c[config] = (app, used + 1)
    return app


def trace_of(ctx, config, kind, mods, opcodes=False):
    """Steps of the request served alone: list of locations."""
    c = apps(ctx).setdefault('traces', {})
    k = (config, kind, mods, opcodes)
    if k not in c:
        app = app_for(ctx, config)
        s = scheduler(ctx, opcodes)
        env = farm.make_env(kind, mods, farm.nonce(9999998))
        c[k] = s.record(lambda: farm.serve(app, env, mods))
    return c[k]


def scheduler(ctx, opcodes):
    c = apps(ctx)
    k = 'sched%d' % opcodes
    if k not in c:
        c[k] = sched.Sched(watched, opcodes)
    return c[k]


def differ(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return 'at %d: got ...%s...\n   alone ...%s...' % (i, a[max(0, i - 160):i + 200], b[max(0, i - 160):i + 200])


def judge(ctx, ref, config, spec, n, env, res, case, info):
    kind, mods = spec
    judge_seen(ctx, ref, config, spec, seen_of(res, env, n), case, info)


def seen_of(res, env, n):
    raw = farm.outcome(res, env)
    got, others = farm.normal(raw, n)
    return got, sorted(others), farm.text_of(raw) if others else '', res.code


def judge_seen(ctx, ref, config, spec, seen, case, info):
    kind, mods = spec
    got, others, t, code = seen
    if code is not None and code >= 400:
        ctx.obs['errors_compared'] += 1
    if kind.startswith('body') or kind.startswith('bad_'):
        ctx.obs['bodies_compared'] += 1
    if others:
        o = sorted(others)[0]
        j = t.index(o)
        ctx.violation('other-request/' + kind, info + '%r: data of another request: ...%s...' % (spec, t[max(0, j - 250):j + 100]), case)
        return
    want = ref.get(config, kind, mods)
    if got != want:
        ctx.violation('differs/' + kind, info + '%r: %s' % (spec, differ(got, want)), case)


def run_case(ctx, case, ref=None):
    own = ref is None
    if own:
        ref = Reference(serve_alone)
    try:
        if case[0] == 'stress':
            return stress(ctx, case, ref)
        if case[0] == 'cold':
            return cold(ctx, case, ref)
        _, config, specs, plan, first, warm, opcodes = case
        app = app_for(ctx, config)
        ns = [farm.nonce(i + 1) for i in range(len(specs))]
        envs = [farm.make_env(k, m, n) for (k, m), n in zip(specs, ns)]
        results = [None] * len(specs)

        def job(i):
            def fn():
                results[i] = farm.serve(app, envs[i], specs[i][1])
            return fn

        def warming(i):
            for j, kind in enumerate(warm):
                farm.serve(app, farm.make_env(kind, (), farm.nonce(100 + i * 10 + j)))
        rep = scheduler(ctx, opcodes).run([job(i) for i in range(len(specs))], plan, first, warming if warm else None)
        ctx.obs['schedules'] += 1
        ctx.obs['switches'] += len(rep['switches'])
        ctx.obs['stalls'] += rep['stalls']
        sites = apps(ctx).setdefault('sites', set())
        for s in rep['switches']:
            sites.add((s[2], s[3]))
        ctx.seen(case, bool(rep['switches']), 'sched%d' % min(3, len(plan)))
        ctx.obs['warm_threads' if warm else 'fresh_threads'] += 1
        info = 'config %s, switches %s\n' % (config, ['thread %d -> %d in %s:%s' % s for s in rep['switches']])
        if rep['hung']:
            ctx.violation('hang', info + '%r' % (specs,), case)
            ctx.c08 = {}
            return
        for i, spec in enumerate(specs):
            if rep['errors'][i] is not None:
                ctx.violation('thread-died', info + repr(rep['errors'][i]), case)
                continue
            judge(ctx, ref, config, spec, ns[i], envs[i], results[i], case, info)
    finally:
        if own:
            ref.close()


def in_child(fn):
    """fn() in a process of its own, forked from this one (which has not served anything) -> result, or None if it died"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            Reference.write(w, fn())
        except BaseException as e:
            try:
                Reference.write(w, ('harness', repr(e)))
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(w)
    try:
        return Reference.read(r)
    except EOFError:
        return None
    finally:
        os.close(r)
        os.waitpid(pid, 0)


def cold_app(ctx, config):
    c = ctx.__dict__.setdefault('c08cold', {})
    if config not in c:
        c[config] = new_app(config)
    return c[config]


def first_steps(ctx, config, spec):
    """Steps of the first request of a process that the second one does not have (and where they begin)."""
    app = cold_app(ctx, config)

    def fn():
        s = sched.Sched(watched, False)
        traces = [s.record(lambda: farm.serve(app, farm.make_env(spec[0], spec[1], farm.nonce(9999990 + i)), spec[1])) for i in range(3)]
        left = {}
        for loc in traces[2]:
            left[loc] = left.get(loc, 0) + 1
        out = []
        for i, loc in enumerate(traces[0]):
            if left.get(loc, 0):
                left[loc] -= 1
            else:
                out.append((i + 1, loc))
        return out, len(traces[0])
    got = in_child(fn)
    return ([], 0) if got is None or got[0] == 'harness' else got


def cold(ctx, case, ref):
    """The very first requests of a process, at the same time."""
    _, config, specs, plan, first = case
    app = cold_app(ctx, config)

    def fn():
        ns = [farm.nonce(i + 1) for i in range(len(specs))]
        envs = [farm.make_env(k, m, n) for (k, m), n in zip(specs, ns)]
        results = [None] * len(specs)

        def job(i):
            def go():
                results[i] = farm.serve(app, envs[i], specs[i][1])
            return go
        rep = sched.Sched(watched, False).run([job(i) for i in range(len(specs))], plan, first)
        return ('ok', rep['switches'], rep['hung'], [None if e is None else repr(e) for e in rep['errors']],
                [None if r is None else seen_of(r, e, n) for r, e, n in zip(results, envs, ns)])
    got = in_child(fn)
    ctx.seen(case, bool(got and got[1]), 'cold')
    ctx.obs['cold_schedules'] += 1
    if got is None:
        return ctx.violation('process-died', 'config %s, first requests %r of a process, plan %r' % (config, specs, plan), case)
    if got[0] == 'harness':
        raise RuntimeError(got[1])
    _, switches, hung, errors, seen = got
    ctx.obs['switches'] += len(switches)
    info = 'first requests of a process, config %s, switches %s\n' % (config, ['thread %d -> %d in %s:%s' % s for s in switches])
    if hung:
        return ctx.violation('hang', info + '%r' % (specs,), case)
    for i, spec in enumerate(specs):
        if errors[i] is not None:
            ctx.violation('thread-died', info + errors[i], case)
        else:
            judge_seen(ctx, ref, config, spec, seen[i], case, info)


def stress(ctx, case, ref):
    """Free-running threads."""
    _, config, seed, nthreads, per, pool = case
    app = new_app(config)
    out = [[] for _ in range(nthreads)]
    start = threading.Barrier(nthreads)

    def work(i):
        rng = random.Random('%s/%d' % (seed, i))
        start.wait()
        for k in range(per):
            spec = rng.choice(pool)
            n = farm.nonce(i * per + k + 1)
            env = farm.make_env(spec[0], spec[1], n)
            out[i].append((spec, n, env, farm.serve(app, env, spec[1])))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(nthreads)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
    finally:
        sys.setswitchinterval(old)
    ctx.seen(case, True, 'stress')
    if any(t.is_alive() for t in ts):
        ctx.violation('hang', 'free-running threads did not end', case)
        return
    for i, lst in enumerate(out):
        if len(lst) != per:
            ctx.violation('thread-died', 'a free-running thread served %d of %d requests' % (len(lst), per), case)
        for spec, n, env, res in lst:
            ctx.obs['stress_requests'] += 1
            judge(ctx, ref, config, spec, n, env, res, case, 'free-running threads, config %s\n' % config)


# ---------------------------------------------------------------- workload
def rnd_spec(rng):
    r = rng.random()
    if r < .45:
        return ('prog', tuple(sorted({'k%d' % rng.randrange(farm.NPROG)} | set(rng.sample(['cookie', 'json', 'HEAD', 'hookcookie', 'signed', 'xhost'], rng.choice([0, 0, 1, 2]))))))
    kind = rng.choice(farm.KINDS)
    m = [x for x in farm.MODS if x not in ('noiter', 'bare')]
    return (kind, tuple(sorted(set(rng.sample(m, rng.choice([0, 0, 0, 1, 2]))))))


def pick_step(rng, trace):
    """A step, so that every location has the same chance however often it is executed."""
    locs = {}
    for i, loc in enumerate(trace):
        locs.setdefault(loc, []).append(i + 1)
    return rng.choice(rng.choice(list(locs.values())))


def rnd_plan(ctx, rng, config, specs, nsw, opcodes):
    traces = [trace_of(ctx, config, k, m, opcodes) for k, m in specs]
    plan = []
    n = len(specs)
    for _ in range(nsw):
        i = rng.randrange(n)
        if not traces[i]:
            continue
        plan.append((i, pick_step(rng, traces[i]), rng.choice([j for j in range(n) if j != i])))
    return tuple(plan)


EXHAUSTIVE = [('body_multi', 'body_form'), ('h_cookies', 'h_headers'), ('r404', 'h_crash'), ('h_raise_resp', 'h_const_err'), ('body_json', 'bad_json'), ('h_redirect', 'r405'), ('too_large', 'bad_chunked'),
              ('h_copy_req', 'h_ext'), ('h_gen', 'h_filelike'), ('static', 'static_304'), ('h_status', 'h_nocontent'), ('badpath', 'h_plain'), ('hooked', 'r404p'), ('h_err_handled', 'h_const_ret'),
              ('body_chunked', 'body_big'), ('h_critical', 'h_envset'), ('h_mutate', 'body_mutate'), ('typed', 'tail'), ('h_copy_resp', 'h_abort'), ('bad_multi', 'h_reason')]

# both requests go through the same code
FAMILY = ['body_chunked', 'body_chunked_form', 'body_chunked_multi', 'body_multi', 'body_form', 'body_json', 'bad_chunked', 'bad_json', 'bad_multi', 'bad_multi2', 'too_large_up', 'h_cookies', 'h_headers', 'h_copy_req', 'h_raise_resp',
          'h_const_err', 'h_crash', 'h_critical', 'h_gen', 'static', 'r404', 'r404p', 'r405', 'typed', 'tail', 'opt2', 'hooked', 'h_redirect', 'badpath', 'h_ext']


def shards(ctx):
    q = ctx.quick
    return [('rand', i) for i in range(8 if q else 40)] + [('exh', i) for i in range(16 if q else 40)] + [('stress', i) for i in range(2 if q else 8)] + [('cold', i) for i in range(4 if q else 16)]


def run_shard(ctx, shard):
    kind, idx = shard
    rng = ctx.rng
    ref = Reference(serve_alone)
    cfgs = list(CONFIGS)
    try:
        if kind == 'stress':
            for k in range(ctx.scale(3, 40)):
                pool = tuple(rnd_spec(rng) for _ in range(12))
                run_case(ctx, ('stress', cfgs[(k + idx) % len(cfgs)], 's%s/%d/%d' % (ctx.seed, idx, k), rng.choice([2, 4, 8]), 60, pool), ref)
            return
        if kind == 'cold':
            # every place that only the first request of a process comes along, as a switch to another first request
            nsh = ctx.scale(4, 16)
            todo = [k for k in farm.KINDS if k not in ('h_exit',)]
            for j, k in enumerate(todo):
                if j % nsh != idx:
                    continue
                config = cfgs[(j // nsh + ctx.seed) % len(cfgs)]
                spec = (k, rng.choice([(), ('json',), ('cookie',), ('xhost',)]))
                steps, total = first_steps(ctx, config, spec)
                ctx.obs['first_use_steps'] += len(steps)
                at = {}
                for st, loc in steps:
                    at.setdefault(loc, []).append(st)
                picks = sorted({x for occ in at.values() for x in ({occ[0], occ[-1], rng.choice(occ)})})
                if len(picks) > ctx.scale(14, 80):
                    picks = rng.sample(picks, ctx.scale(14, 80))
                if total:
                    picks += [rng.randrange(1, total + 1) for _ in range(ctx.scale(2, 12))]
                for st in picks:
                    plan = ((0, st, 1),)
                    if rng.random() < .5:
                        plan += ((1, rng.choice([st, st + 1, max(1, st - 1), rng.choice(picks)]), 0),)
                    run_case(ctx, ('cold', config, (spec, spec if rng.random() < .7 else (rng.choice(todo), ())), plan, 0), ref)
            return
        if kind == 'exh':
            # every location of one request as the only switch, for pairs of kinds
            nsh = ctx.scale(16, 40)
            rng2 = random.Random('%s/c08' % ctx.seed)
            pairs = [(a, b) for a, b in EXHAUSTIVE] + [(b, a) for a, b in EXHAUSTIVE] + [(a, a) for a in FAMILY]
            if not ctx.quick:
                pairs += [tuple(rng2.sample(farm.KINDS, 2)) for _ in range(240)] + [(k, k) for k in farm.KINDS if k not in FAMILY]
            rng2.shuffle(pairs)
            for j, (x, y) in enumerate(pairs):
                if j % nsh != idx:
                    continue
                config = cfgs[(j // nsh + idx) % len(cfgs)]
                m = rng2.choice([('cookie',), ('cookie',), ('signed',), ('hookcookie', 'cookie')])
                if config == 'hosts' and rng2.random() < .5:
                    m = tuple(sorted(m + ('xhost',)))
                specs = ((x, m), (y, m))
                locs = {}
                for i, loc in enumerate(trace_of(ctx, config, *specs[0])):
                    locs.setdefault(loc, []).append(i + 1)
                for occ in locs.values():
                    for s in {occ[0], occ[-1], occ[len(occ) // 2]} if x == y or not ctx.quick else {rng.choice(occ)}:
                        ctx.obs['schedules_1'] += 1
                        plan = ((0, s, 1),)
                        if x == y and rng.random() < .4:
                            # both stop at the same place
                            plan += ((1, rng.choice([s, s + 1, max(1, s - 1)]), 0),)
                        run_case(ctx, ('sched', config, specs, plan, 0, (), False), ref)
                ctx.obs['exhaustive_pairs'] += 1
            return
        pool = []
        for k in range(ctx.scale(600, 5000)):
            if k % 300 == 0:
                config = cfgs[(idx + k // 300) % len(cfgs)]
                pool = [rnd_spec(rng) for _ in range(45)]
                if config == 'hosts':
                    pool = [(a, tuple(sorted(set(m) ^ set(rng.choice([(), ('xhost',), ('nohost',)]))))) for a, m in pool]
            n = 3 if rng.random() < .2 else 2
            specs = [rng.choice(pool) for _ in range(n)]
            if rng.random() < .15:
                specs = [specs[0]] * n
            if n == 3:
                ctx.obs['three_threads'] += 1
            opcodes = rng.random() < .12
            if opcodes:
                ctx.obs['opcode_schedules'] += 1
            nsw = rng.choice([1, 2, 2, 3, 4, 6, 10])
            plan = rnd_plan(ctx, rng, config, specs, nsw, opcodes)
            ctx.obs['schedules_1' if nsw == 1 else 'schedules_2' if nsw == 2 else 'schedules_many'] += 1
            warm = tuple(rng.choice(farm.KINDS) for _ in range(2)) if rng.random() < .4 else ()
            warm = tuple(w for w in warm if w != 'h_exit')
            run_case(ctx, ('sched', config, tuple(specs), plan, rng.randrange(n), warm, opcodes), ref)
    finally:
        ctx.obs['references'] += len(ref.cache)
        ctx.obs['switch_sites'] += len(apps(ctx).get('sites', ()))
        ref.close()
