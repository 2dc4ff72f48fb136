"""C10: several applications in one process never change what another one shows to its handlers."""
import gc
import io
import os
import random
import sys
import threading

from checks.c08 import FAMILY, watched
from vlib import core
from vlib import farm
from vlib import sched
from vlib import wsgi as W
from vlib.ref import Reference

PID = 'C10'
LEVEL = 'exploration'
RULE = ('a case is an arrangement of 2 or 3 applications (one of them may be the module-level default application): a tree of requests nested at callouts (handlers, hooks, stream reads, start_response, response chunks) with other activity '
        '(copying requests and responses, constructing applications, requests and responses, setting applications up, changing idle responses), requests advanced alternately piece by piece, or requests of '
        'different applications on threads under a controlled scheduler. Everything each handler saw and each complete response is compared with the same request served alone by the only application of a fresh process; '
        'non-trivial if activity of another application or a construction/copy happened during a request')
ASSUMPTIONS = ['an application is not called again on the same thread before its previous request there was finished',
               'applications do not share environ dictionaries except where one forwards a copy of its own',
               'nested activity starts at callouts of the framework (handlers, hooks, streams, the server); arbitrary switch points are covered by threads']
REQUIRED = ('trees', 'chains', 'many_apps', 'nested_calls', 'nested_depth_3', 'actions_fired', 'snapshots_compared', 'default_app_requests', 'apps_constructed', 'request_copies', 'response_copies', 'objects_constructed', 'alternating', 'alternating_switches',
            'schedules', 'schedule_switches', 'stress_requests', 'three_apps', 'same_config_apps', 'late_apps', 'built_on_threads', 'threaded_actions', 'forwarded', 'references', 'reads_from_stream', 'setups')
CONFIGS = {
    'plain': {},
    'full': dict(max_body_size=2000),
    'small': dict(max_body_size=2000, max_memfile_size=64),
    'debug': dict(debug=True, max_body_size=2000),
    'script': dict(allow_x_script_name=True, app_name_header='HTTP_X_APP_NAME', max_body_size=2000),
    'any': dict(domain_map=farm.by_any_host, app_name_header='HTTP_X_APP_NAME', max_body_size=2000),
    'hosts': dict(domain_map=farm.by_host, app_name_header='HTTP_X_APP_NAME', max_body_size=2000),
    'map': None,
    'default': None,
}
GLOBAL = {}


def own_default():
    import ombott
    if GLOBAL.get('pid') != os.getpid():
        GLOBAL.update(pid=os.getpid(), app=tag(farm.build(app=ombott.default_app()), TAG % 'D'))
    return GLOBAL['app']


def error_map():
    """One map with its error objects that is given to several applications."""
    if GLOBAL.get('mappid') != os.getpid():
        from ombott import HTTPError
        from ombott.request_pkg import errors
        GLOBAL.update(mappid=os.getpid(), map={errors.RequestError: HTTPError(400, 'mapped bad request', X_Map='1'),
                                               errors.BodySizeError: HTTPError(413, 'mapped too large'),
                                               errors.BodyParsingError: HTTPError(422, 'mapped parsing')})
    return GLOBAL['map']


def tag(app, t):
    @app.on('before_request')
    def tagged():
        app.response.headers['X-App'] = t
    app.route('/who/<n>', 'GET', lambda n: 'app %s %s' % (t, n))
    return app


def conf_of(config):
    if config == 'map':
        return dict(max_body_size=2000, errors_map=error_map())
    return dict(CONFIGS[config])


def new_app(config, t):
    if config == 'default':
        return own_default()
    return tag(farm.build(conf_of(config), errors='all' if config in ('small', 'full', 'debug') else True), t)


TAG = 'tag%stag'
LETTERS = '0123456789abcdefghijklmnopqrstuvwxyzABCEFGHIJKLMOPQSTUVWYZ'     # one letter each: the length shows in headers


def serve_alone(config, kind, mods):
    app = new_app(config, TAG % 'X')
    env = make_env(kind, mods, farm.PLACE)
    return farm.normal(outcome(farm.serve(app, env, mods), env), farm.PLACE)[0].replace(TAG % 'D', TAG % 'X')


def outcome(res, env):
    # but for the error log
    return farm.outcome(res, env)[:-1]


class Stream:
    """wsgi.input that calls back on every read."""

    def __init__(self, inner, cb):
        self.inner, self.cb = inner, cb

    def read(self, n=-1):
        self.cb('stream')
        return self.inner.read(n)

    def __getattr__(self, k):
        return getattr(self.inner, k)


def make_env(kind, mods, n):
    if kind == 'who':
        env = farm.make_env('root404', mods, n)
        env['PATH_INFO'] = '/who/' + n
        return env
    return farm.make_env(kind, mods, n)


def snapshot(app):
    req, resp = app.request, app.response
    out = []
    for k, f in farm.REQ_READS.items():
        out.append((k, farm.attempt(lambda: f(req))))
    for k, f in farm.RESP_READS.items():
        out.append((k, farm.attempt(lambda: f(resp))))
    return farm.text_of(out)


def differ(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return 'at %d: got ...%s...\n   alone ...%s...' % (i, a[max(0, i - 160):i + 200], b[max(0, i - 160):i + 200])


def judge(ctx, ref, config, t, spec, n, env, res, case, info):
    kind, mods = spec
    got, others = farm.normal(outcome(res, env), n)
    got = got.replace(t, TAG % 'X')
    if config == 'default':
        ctx.obs['default_app_requests'] += 1
    if others:
        text = farm.text_of(outcome(res, env))
        o = sorted(others)[0]
        j = text.index(o)
        ctx.violation('other-application/' + kind, info + '%r: data of another request: ...%s...' % (spec, text[max(0, j - 250):j + 100]), case)
        return
    want = ref.get(config, kind, mods)
    if got != want:
        ctx.violation('differs/' + kind, info + '%r: %s' % (spec, differ(got, want)), case)


# ---------------------------------------------------------------- trees
class World:
    """The applications of a case and what happens between them."""

    def __init__(self, ctx, ref, configs, case, apps=None):
        self.ctx, self.ref, self.case = ctx, ref, case
        self.configs = configs
        self.apps = apps or [new_app(c, tag_of(configs, i)) for i, c in enumerate(configs)]
        self.count = 0
        self.lock = threading.Lock()
        self.trail = []
        self.quiet = False

    def nonce(self):
        with self.lock:
            self.count += 1
            return farm.nonce(self.count)

    def serve(self, node, active=(), app=None, config=None, t=None):
        """node: (application, kind, mods, ((callout, action), ...)); active: applications that are serving on this thread."""
        ai, kind, mods, actions = node
        if app is None:
            app, config, t = self.apps[ai], self.configs[ai], tag_of(self.configs, ai)
        n = self.nonce()
        env = make_env(kind, mods, n)
        todo = {}
        for when, act in actions:
            todo.setdefault(when, []).append(act)
        k = [0]
        inside = active + (app,)

        def callout(name):
            i = k[0]
            k[0] += 1
            if name == 'stream':
                self.ctx.obs['reads_from_stream'] += 1
            for act in todo.pop(i, ()):
                self.act(act, app, inside, name, kind, env)
        if actions:
            env['vx.point'] = callout
            if env['wsgi.input'] is not None:
                env['wsgi.input'] = Stream(env['wsgi.input'], callout)
        self.trail.append('%s%s %s' % ('  ' * len(active), t, kind))
        if len(active) >= 2:
            self.ctx.obs['nested_depth_3'] += 1
        chained = sys.exc_info()[1] is not None
        res = farm.serve(app, env, mods, hook=callout if actions else None)
        if chained and (res.code is None or res.code >= 500):
            # Python itself mentions the exception of the outer application in the traceback
            self.ctx.obs['chained_errors'] += 1
        elif not self.quiet:
            judge(self.ctx, self.ref, config, t, (kind, mods), n, env, res, self.case, 'configs %r, trail %r\n' % (self.configs, self.trail[-12:]))
        return n, env, res

    def act(self, act, app, active, where, kind, env):
        ctx = self.ctx
        what = act[0]
        self.trail.append('%s[%s at %s]' % ('  ' * len(active), what, where))
        before = [(a, snapshot(a)) for a in active]
        self.perform(act, app, active, env)
        ctx.obs['actions_fired'] += 1
        for a, s in before:
            ctx.obs['snapshots_compared'] += 1
            now = snapshot(a)
            if now != s:
                ctx.violation('changed-by/' + what, 'configs %r, trail %r: request or response of %s changed: %s' % (
                    self.configs, self.trail[-12:], 'the serving application' if a is app else 'an outer application', differ(now, s)), self.case)
                return

    def perform(self, act, app, active, env):
        import ombott
        ctx = self.ctx
        what = act[0]
        if what == 'serve':
            if self.apps[act[1][0]] in active:
                return
            ctx.obs['nested_calls'] += 1
            self.serve(act[1], active)
        elif what == 'thread':
            ctx.obs['threaded_actions'] += 1
            err = []

            def work():
                try:
                    for sub in act[1:]:
                        if sub[0] == 'act':
                            self.perform(sub[1], app, (), env)
                        else:
                            self.serve(sub)
                except BaseException as e:
                    err.append(e)
            t = threading.Thread(target=work)
            t.start()
            t.join()
            if err:
                raise err[0]
        elif what == 'build':
            ctx.obs['apps_constructed'] += 1
            config, node = act[1:]
            new = new_app(config, TAG % 'N')
            if new in active:
                return
            if node is not None:
                ctx.obs['late_apps'] += 1
                self.serve(node, active, new, config, TAG % ('N' if config != 'default' else 'D'))
        elif what == 'new':
            ctx.obs['objects_constructed'] += 1
            self.construct(act[1])
        elif what == 'copyreq':
            a = self.apps[act[1]]
            ctx.obs['request_copies'] += 1
            try:
                c = a.request.copy()
            except Exception:
                return     # an application that never served on this thread
            if act[2]:
                c['HTTP_X_NONCE'] = 'copy'
                c['HTTP_COOKIE'] = 'copy=copy'
                c['QUERY_STRING'] = 'copy=1'
                c['PATH_INFO'] = '/copy'
                c['REQUEST_METHOD'] = 'COPY'
                c.user = 'copy'
                c.mark = 'copy'
                for k in ('query', 'cookies', 'path', 'url'):
                    farm.attempt(lambda: getattr(c, k))
                c.query['extra'] = 'copy'
                c.environ['vx.copy'] = 1
                c.environ.pop('vx.log', None)
        elif what == 'copyresp':
            a = self.apps[act[1]]
            ctx.obs['response_copies'] += 1
            try:
                c = a.response.copy(*([ombott.HTTPResponse] if act[2] else []))
            except Exception:
                return
            c.status = 599
            c.headers['X-Copy'] = 'copy'
            c.headers.append('X-App', 'copy')
            c.set_cookie('copy', 'copy')
            c.body = 'copy'
            if act[3]:
                c.headers.clear()
        elif what == 'mutresp':
            a = self.apps[act[1]]
            if a not in active:
                r = a.response
                farm.attempt(lambda: setattr(r, 'status', 500))
                farm.attempt(lambda: r.headers.__setitem__('X-Idle', 'idle'))
                farm.attempt(lambda: r.headers.append('X-App', 'idle'))
                farm.attempt(lambda: r.set_cookie('idle', 'idle'))
                farm.attempt(lambda: setattr(r, 'body', 'idle'))
        elif what == 'mutreq':
            a = self.apps[act[1]]
            if a not in active:
                r = a.request
                farm.attempt(lambda: r.__setitem__('HTTP_X_NONCE', 'idle'))
                farm.attempt(lambda: r.__setitem__('QUERY_STRING', 'idle=1'))
                farm.attempt(lambda: setattr(r, 'user', 'idle'))
                farm.attempt(lambda: r.on('env_changed', lambda *a: None))
        elif what == 'setup':
            ctx.obs['setups'] += 1
            a, c = self.apps[act[1]], self.configs[act[1]]
            if c == 'default':
                a.setup()
            else:
                a.setup(conf_of(c))
        elif what == 'other':
            # a new application with everything different
            ctx.obs['apps_constructed'] += 1
            a = ombott.Ombott(dict(max_body_size=1, max_memfile_size=1, debug=True, catchall=False, allow_x_script_name=True, app_name_header='HTTP_X_NONCE'))
            a.setup(dict(max_body_size=2, errors_map={}))
            a.route('/h/plain/<n>', 'ANY', lambda n: 'foreign')
            a.on_route('/h', lambda route: 'foreign')
            for c in (404, 405, 410, 413, 500):
                a.error(c)(lambda e: 'foreign')
            a.error(404, '/')(lambda route, params: 'foreign')
            a.on('before_request', lambda: a.response.headers.__setitem__('X-App', 'foreign'))
            a.on('after_request', lambda: a.response.headers.__setitem__('X-App', 'foreign'))
            a.request.on('env_changed', lambda *x: 1 / 0)
            a.response.status = 500
            a.response.headers['X-App'] = 'foreign'
            a.response.set_cookie('foreign', 'foreign')
            a.request.environ['PATH_INFO'] = '/foreign'
            if act[1]:
                e = W.environ('GET', '/h/plain/foreign')
                W.call(a, e)
                W.call(a, W.environ('POST', '/h/plain/foreign', body=b'a=1', ctype='application/x-www-form-urlencoded'))
        elif what == 'forward':
            ctx.obs['forwarded'] += 1
            i = act[1]
            if self.apps[i] in active:
                return
            e = farm.Env(env)
            e['vx.log'] = []
            e['wsgi.errors'] = io.StringIO()
            e['vx.point'] = None
            farm.serve(self.apps[i], e)
        elif what == 'gc':
            gc.collect()

    @staticmethod
    def construct(k):
        import ombott
        from ombott.request_pkg import Request
        if k == 'app':
            ombott.Ombott()
        elif k == 'app2':
            ombott.Ombott(dict(max_body_size=1, debug=True)).request.environ['PATH_INFO'] = '/constructed'
        elif k == 'default':
            ombott.default_app()
        elif k == 'req':
            Request()
        elif k == 'reqenv':
            r = Request(W.environ('GET', '/constructed', qs='x=constructed', headers={'Cookie': 'n=constructed', 'X-Nonce': 'constructed'}))
            r.user = 'constructed'
            r.query, r.cookies, r.path
            r['HTTP_X_NONCE'] = 'more'
        elif k == 'reqconf':
            Request(W.environ('POST', '/constructed', body=b'a=1', ctype='application/x-www-form-urlencoded'), config=dict(max_body_size=1, max_memfile_size=1)).setup(dict(max_body_size=2))
        elif k == 'reqcopy':
            r = Request(W.environ('GET', '/constructed')).copy()
            r['QUERY_STRING'] = 'x=1'
        elif k == 'resp':
            r = ombott.Response()
            r.status = 500
            r.headers['X-App'] = 'constructed'
            r.set_cookie('constructed', '1')
        elif k == 'respargs':
            ombott.Response('body', 500, {'X-App': 'constructed'}, X_More='constructed')
        elif k == 'http':
            r = ombott.HTTPResponse('body', 500, [('X-App', 'constructed')])
            r.set_cookie('constructed', '1')
            r.copy()
        elif k == 'err':
            e = ombott.HTTPError(500, 'constructed', X_App='constructed')
            e.clone().status = 404
            e.apply(ombott.Response())


NEW = ('app', 'app', 'app2', 'default', 'req', 'reqenv', 'reqconf', 'reqcopy', 'resp', 'respargs', 'http', 'err')


def tag_of(configs, i):
    return TAG % ('D' if configs[i] == 'default' else LETTERS[i])


def run_case(ctx, case, ref=None, apps=None):
    own = ref is None
    if own:
        ref = Reference(serve_alone)
    try:
        return {'tree': run_tree, 'alt': run_alt, 'sched': run_sched, 'stress': run_stress, 'builds': run_builds, 'chain': run_chain}[case[0]](ctx, case, ref, apps)
    finally:
        if own:
            ref.close()


def run_chain(ctx, case, ref, apps):
    """Applications mounted in one another: each hands a copy of its environ on, and answers with what it got."""
    import ombott
    _, configs, outcomes = case
    ctx.seen(case, True, 'chain')
    ctx.obs['chains'] += 1
    n = len(configs)
    apps = [ombott.Ombott(conf_of(c)) for c in configs]
    bad = []

    def mount(i):
        app = apps[i]

        @app.route('/m/<x>', 'ANY')
        def h(x):
            app.response.headers['X-Own'] = '%d' % i
            app.response.set_cookie('own%d' % i, 'v')
            text = ''
            if i + 1 < n:
                before = snapshot(app)
                r = W.call(apps[i + 1], dict(app.request.environ))
                text = shown(i + 1, r)
                want = expected(i + 1)
                if text != want and not bad:
                    bad.append('application %d answered %.700s instead of %.700s' % (i + 1, text, want))
                now = snapshot(app)
                if now != before and not bad:
                    bad.append('request or response of application %d changed while %d served: %s' % (i, i + 1, differ(now, before)))
            out = '%s %d' % (x, i)
            if outcomes[i] == 'raise':
                raise ombott.HTTPResponse(out, 202, {'X-Own': '%d' % i})
            return out

    def shown(i, r):
        # (whether a raised response takes the cookies set before along is not the question here)
        return '%s %s %r' % (r.status, sorted((k, v) for k, v in r.headers or () if k not in ('Content-Type', 'Content-Length') and (k, v) != ('Set-Cookie', 'own%d=v' % i)), r.body)

    def expected(i):
        return '%s %s %r' % ('200 OK' if outcomes[i] != 'raise' else '202 Accepted', [('X-Own', '%d' % i)], b'x %d' % i)
    for i in range(n):
        mount(i)
    env = W.environ('GET', '/m/x', qs='a=1', headers={'Cookie': 'c=1'})
    r = W.call(apps[0], env)
    text = shown(0, r)
    if text != expected(0) and not bad:
        bad.append('application 0 answered %.700s instead of %.700s' % (text, expected(0)))
    if bad:
        ctx.violation('chain', '%d applications, configs %r: %s' % (n, configs, bad[0]), case)


def run_tree(ctx, case, ref, apps):
    _, configs, nodes = case
    ctx.seen(case, any(n[3] for n in nodes), 'tree')
    ctx.obs['trees'] += 1
    count_configs(ctx, configs)
    w = World(ctx, ref, configs, case, apps)
    for node in nodes:
        w.serve(node)


def count_configs(ctx, configs):
    if len(configs) > 2:
        ctx.obs['three_apps'] += 1
    if len(set(configs)) < len(configs):
        ctx.obs['same_config_apps'] += 1


def run_alt(ctx, case, ref, apps):
    """Requests advanced piece by piece, those of one application one after another."""
    _, configs, specs, order = case
    ctx.seen(case, True, 'alt')
    ctx.obs['alternating'] += 1
    count_configs(ctx, configs)
    apps = apps or [new_app(c, tag_of(configs, i)) for i, c in enumerate(configs)]
    queues = [[(k, m) for ai, k, m in specs if ai == i] for i in range(len(configs))]
    running = {}
    count = 0
    last = None
    order = list(order)
    while any(queues) or running:
        i = order.pop(0) % len(configs) if order else next(i for i in range(len(configs)) if queues[i] or i in running)
        if i not in running:
            if not queues[i]:
                continue
            kind, mods = queues[i].pop(0)
            count += 1
            n = farm.nonce(count)
            env = make_env(kind, mods, n)
            res = W.Result()
            running[i] = (kind, mods), n, env, res, W.steps(apps[i], env, res)
        if last != i:
            ctx.obs['alternating_switches'] += 1
            last = i
        spec, n, env, res, g = running[i]
        try:
            next(g)
        except StopIteration:
            del running[i]
            judge(ctx, ref, configs[i], tag_of(configs, i), spec, n, env, res, case, 'alternating, configs %r: ' % (configs,))


PIECES = [None]


def scheduler(opcodes):
    if PIECES[0] is None:
        PIECES[0] = {}
    if opcodes not in PIECES[0]:
        PIECES[0][opcodes] = sched.Sched(watched, opcodes)
    return PIECES[0][opcodes]


def run_sched(ctx, case, ref, apps):
    """One thread per entry; each serves a list of trees of its own applications."""
    _, configs, jobs, plan, first, opcodes = case
    count_configs(ctx, configs)
    w = World(ctx, ref, configs, case, apps)
    w.quiet = True
    results = [[] for _ in jobs]

    def work(i):
        def fn():
            for node in jobs[i]:
                if node[0] == 'act':
                    w.perform(node[1], None, (), None)
                else:
                    results[i].append((node, w.serve(node)))
        return fn
    rep = scheduler(opcodes).run([work(i) for i in range(len(jobs))], plan, first)
    ctx.obs['schedules'] += 1
    ctx.obs['schedule_switches'] += len(rep['switches'])
    ctx.seen(case, bool(rep['switches']), 'sched')
    info = 'threads, configs %r, switches %s\n' % (configs, ['thread %d -> %d in %s:%s' % s for s in rep['switches']])
    if rep['hung']:
        ctx.violation('hang', info, case)
        return
    for i, e in enumerate(rep['errors']):
        if e is not None:
            ctx.violation('thread-died', info + 'thread %d: %r' % (i, e), case)
            continue
        for node, (n, env, res) in results[i]:
            judge(ctx, ref, configs[node[0]], tag_of(configs, node[0]), node[1:3], n, env, res, case, info)


def run_builds(ctx, case, ref, apps):
    """Applications constructed at the same time, each on a thread of its own, that then serve; others serve meanwhile."""
    _, configs, jobs, plan, first = case
    ready = new_app(configs[0], TAG % 'R')
    results = [[] for _ in jobs]
    wrong = []
    # a filter nobody used before
    GLOBAL['filters'] = GLOBAL.get('filters', 0) + 1
    fresh = 'a+%s' % ('b{0,%d}' % GLOBAL['filters'])

    def work(i):
        def fn():
            kind, specs = jobs[i]
            t = TAG % (i if kind == 'build' else 'R')
            config = configs[i] if kind == 'build' else configs[0]
            app = ready if kind != 'build' else new_app(config, t)
            if kind != 'serve':
                import ombott
                late = ombott.Ombott()
                for tail in ('a', 'b'):
                    late.route('/new/<p:re(%s)>/<q:rex((%s)|x)[1]>/%s' % (fresh, fresh, tail), 'GET', lambda p, q, tail=tail: '%s %s %s' % (tail, p, q))
                for tail in ('a', 'b'):
                    r = W.call(late, W.environ('GET', '/new/aa/a/' + tail))
                    text = r.body.decode('utf8', 'replace')
                    if text != tail + ' aa a':
                        wrong.append('thread %d: a route just registered by it gives %s %r' % (i, r.status, text[:300]))
            for k, spec in enumerate(specs):
                n = farm.nonce(20 * i + k + 1)
                env = make_env(spec[0], spec[1], n)
                results[i].append((config, t, spec, n, env, farm.serve(app, env, spec[1])))
        return fn
    fns = [work(i) for i in range(len(jobs))]
    if plan is None:
        errors = [None] * len(fns)
        start = threading.Barrier(len(fns))

        def body(i):
            start.wait()
            try:
                fns[i]()
            except BaseException as e:
                errors[i] = e
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(fns))]
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
        finally:
            sys.setswitchinterval(old)
        hung, info = any(t.is_alive() for t in ts), 'applications constructed on free-running threads, configs %r\n' % (configs,)
    else:
        rep = scheduler(False).run(fns, plan, first)
        ctx.obs['schedules'] += 1
        ctx.obs['schedule_switches'] += len(rep['switches'])
        hung, errors, info = rep['hung'], rep['errors'], 'applications constructed on threads, configs %r, switches %s\n' % (configs, ['thread %d -> %d in %s:%s' % s for s in rep['switches']])
    ctx.seen(case, True, 'builds')
    ctx.obs['built_on_threads'] += sum(k != 'serve' for k, _ in jobs)
    if hung:
        return ctx.violation('hang', info, case)
    for w in wrong[:1]:
        ctx.violation('late-routes', info + w, case)
    for i, e in enumerate(errors):
        if e is not None:
            ctx.violation('thread-died', info + 'thread %d: %r' % (i, e), case)
            continue
        for config, t, spec, n, env, res in results[i]:
            judge(ctx, ref, config, t, spec, n, env, res, case, info)


def run_stress(ctx, case, ref, apps):
    _, configs, seed, nthreads, per, pool = case
    apps = [new_app(c, tag_of(configs, i)) for i, c in enumerate(configs)]
    out = [[] for _ in range(nthreads)]
    start = threading.Barrier(nthreads)

    def work(i):
        rng = random.Random('%s/%d' % (seed, i))
        start.wait()
        for k in range(per):
            ai = rng.randrange(len(apps))
            spec = rng.choice(pool)
            n = farm.nonce(i * per + k + 1)
            env = make_env(spec[0], spec[1], n)
            if rng.random() < .2:
                World.construct(rng.choice(NEW))
            out[i].append((ai, spec, n, env, farm.serve(apps[ai], env, spec[1])))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(nthreads)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
    finally:
        sys.setswitchinterval(old)
    ctx.seen(case, True, 'stress')
    if any(t.is_alive() for t in ts):
        ctx.violation('hang', 'free-running threads did not end', case)
        return
    for i, lst in enumerate(out):
        if len(lst) != per:
            ctx.violation('thread-died', 'a free-running thread served %d of %d requests' % (len(lst), per), case)
        for ai, spec, n, env, res in lst:
            ctx.obs['stress_requests'] += 1
            judge(ctx, ref, configs[ai], tag_of(configs, ai), spec, n, env, res, case, 'free-running threads, configs %r\n' % (configs,))


# ---------------------------------------------------------------- workload
FORWARDABLE = ('h_plain', 'h_cookies', 'h_headers', 'h_status', 'h_raise_resp', 'h_crash', 'h_redirect', 'h_abort', 'hooked', 'static', 'r404', 'r404p', 'r405', 'typed', 'tail', 'opt2', 'h_copy_req', 'h_gen')


def rnd_spec(rng):
    r = rng.random()
    if r < .3:
        return ('prog', tuple(sorted({'k%d' % rng.randrange(farm.NPROG)} | set(rng.sample(['cookie', 'json', 'HEAD', 'hookcookie', 'signed', 'xhost'], rng.choice([0, 0, 1, 2]))))))
    if r < .6:
        kind = rng.choice(FAMILY + ['who', 'h_redirect', 'h_gen', 'h_ext', 'body_form', 'body_multi', 'body_chunked', 'static', 'static_range', 'h_plain', 'h_cookies', 'h_headers', 'h_copy_req', 'h_copy_resp'])
    else:
        kind = rng.choice(farm.KINDS)
    m = [x for x in farm.MODS if x not in ('bare',)]
    return (kind, tuple(sorted(set(rng.sample(m, rng.choice([0, 0, 1, 2]))))))


def quiet_spec(rng):
    s = rnd_spec(rng)
    while s[0] == 'h_exit':
        s = rnd_spec(rng)
    return s


def rnd_node(rng, napps, pool, depth, not_app=(), want=None):
    free = [i for i in range(napps) if i not in not_app] or [0]
    ai = rng.choice(free)
    spec = rng.choice(pool)
    acts = []
    for _ in range(rng.choice([1, 2, 3, 4]) if depth else 0):
        acts.append((rng.choice([0, 0, 1, 1, 2, 2, 3, 4, 5, 6]), rnd_act(rng, napps, pool, depth - 1, ai, not_app + (ai,), spec[0])))
    return (ai, spec[0], spec[1], tuple(acts))


def rnd_act(rng, napps, pool, depth, me, active, kind):
    idle = [i for i in range(napps) if i not in active]
    r = rng.random()
    if r < .34 and idle:
        return ('serve', rnd_node(rng, napps, pool, depth, active))
    if r < .44:
        if rng.random() < .3:
            return ('thread', ('act', rnd_act(rng, napps, pool, 0, me, active, kind)), rnd_node(rng, napps, pool, 0))
        return ('thread', rnd_node(rng, napps, pool, max(0, depth)))
    if r < .52:
        c = rng.choice(list(CONFIGS))
        return ('build', c, rnd_node(rng, napps, pool, 0) if rng.random() < .7 else None)
    if r < .68:
        return ('new', rng.choice(NEW))
    if r < .78:
        return ('copyreq', rng.choice([me, rng.randrange(napps)]), rng.random() < .7)
    if r < .84:
        return ('copyresp', rng.choice([me, rng.randrange(napps)]), rng.random() < .5, rng.random() < .5)
    if r < .88 and idle:
        return (rng.choice(['mutresp', 'mutreq']), rng.choice(idle))
    if r < .92:
        return ('setup', rng.randrange(napps))
    if r < .95:
        return ('other', rng.random() < .5)
    if r < .99 and idle and kind in FORWARDABLE:
        return ('forward', rng.choice(idle))
    if r < .992:
        return ('gc',)
    return ('new', rng.choice(NEW))


def many(ctx, rng, ref):
    """A process with very many applications, and requests nested very deeply."""
    n = rng.randrange(12, len(LETTERS))
    names = [c for c in CONFIGS if c != 'default']
    configs = [rng.choice(names) for _ in range(n)]
    configs[rng.randrange(n)] = 'default'
    pool = [quiet_spec(rng) for _ in range(8)]
    order = rng.sample(range(n), n)
    depth = rng.randrange(9, 16)
    node = None
    for ai in order[:depth]:
        s = rng.choice(pool)
        acts = () if node is None else ((rng.choice([0, 0, 1, 2]), ('serve', node)),)
        if rng.random() < .3:
            acts += ((rng.choice([1, 2, 3]), rng.choice([('new', rng.choice(NEW)), ('copyreq', ai, True), ('copyresp', ai, True, True)])),)
        node = (ai, s[0], s[1], acts)
    nodes = [node]
    for ai in order:
        s = rng.choice(pool)
        nodes.append((ai, s[0], s[1], ()))
    nodes += [rnd_node(rng, n, pool, 1) for _ in range(4)]
    ctx.obs['many_apps'] += 1
    run_case(ctx, ('tree', tuple(configs), tuple(nodes)), ref)


def rnd_configs(rng):
    n = rng.choice([2, 2, 3])
    names = [c for c in CONFIGS if c != 'default']
    cs = [rng.choice(names) for _ in range(n)]
    if rng.random() < .08:
        cs[:2] = rng.sample(['any', 'hosts'], 2)
    if rng.random() < .25:
        cs = [cs[0]] * n
    if rng.random() < .5:
        cs[rng.randrange(n)] = 'default'
    return tuple(cs)


def shards(ctx):
    q = ctx.quick
    return ([('tree', i) for i in range(8 if q else 32)] + [('alt', i) for i in range(3 if q else 12)] + [('sched', i) for i in range(6 if q else 32)]
            + [('stress', i) for i in range(2 if q else 8)])


def rnd_pool(rng, n):
    return [rnd_spec(rng) for _ in range(n)]


def run_shard(ctx, shard):
    what, idx = shard
    rng = ctx.rng
    ref = Reference(serve_alone)
    configs = apps = None
    pool = []
    try:
        if what == 'stress':
            for k in range(ctx.scale(3, 40)):
                for _ in range(ctx.scale(60, 300)):
                    # small ones: every switch point is likely
                    jobs = [('late', ()) for _ in range(rng.choice([2, 2, 3]))]
                    plan = tuple((t, rng.randrange(1, rng.choice([60, 300, 900])), u) for t, u in (rng.sample(range(len(jobs)), 2) for _ in range(rng.choice([1, 2, 3, 4]))))
                    run_case(ctx, ('builds', ('plain',) * len(jobs), tuple(jobs), plan, rng.randrange(len(jobs))), ref)
                for _ in range(ctx.scale(4, 12)):
                    jobs = [('build' if i < 2 or rng.random() < .7 else 'serve', tuple(quiet_spec(rng) for _ in range(rng.choice([1, 2, 4])))) for i in range(rng.choice([2, 3, 4]))]
                    plan = None
                    if rng.random() < .7:
                        plan = tuple((t, rng.randrange(1, rng.choice([300, 3000, 40000])), u) for t, u in (rng.sample(range(len(jobs)), 2) for _ in range(rng.choice([1, 2, 4, 12]))))
                    run_case(ctx, ('builds', tuple(rng.choice(['plain', 'full', 'small', 'debug', 'script']) for _ in jobs), tuple(jobs), plan, rng.randrange(len(jobs))), ref)
                run_case(ctx, ('stress', rnd_configs(rng), 's%s/%d/%d' % (ctx.seed, idx, k), rng.choice([2, 4, 8]), 60, tuple(rnd_pool(rng, 12))), ref)
            return
        for k in range(ctx.scale({'tree': 420, 'alt': 420, 'sched': 420}[what], {'tree': 8000, 'alt': 8000, 'sched': 9000}[what])):
            if k % 60 == 0:
                configs = rnd_configs(rng)
                apps = [new_app(c, tag_of(configs, i)) for i, c in enumerate(configs)]
                if k % 240 == 0:
                    pool = rnd_pool(rng, 30)
            if what == 'tree' and k % 210 == 105:
                many(ctx, rng, ref)
                for _ in range(ctx.scale(3, 10)):
                    d = rng.randrange(2, 16)
                    run_case(ctx, ('chain', tuple(rng.choice(['plain', 'full', 'small', 'debug']) for _ in range(d)), tuple(rng.choice(['ret', 'raise']) for _ in range(d))), ref)
            # some cases have applications of their own
            mine = None if rng.random() < .1 else apps
            n = len(configs)
            if what == 'tree':
                nodes = tuple(rnd_node(rng, n, pool, rng.choice([1, 2, 2, 3])) for _ in range(rng.choice([1, 1, 2])))
                run_case(ctx, ('tree', configs, nodes), ref, mine)
            elif what == 'alt':
                specs = []
                for _ in range(rng.choice([2, 3, 4, 6])):
                    s = rng.choice(pool)
                    while 'noiter' in s[1] or 'srfail' in s[1] or s[0] == 'h_exit':
                        s = rng.choice(pool)
                    specs.append((rng.randrange(n),) + s)
                run_case(ctx, ('alt', configs, tuple(specs), tuple(rng.randrange(n) for _ in range(20))), ref, mine)
            else:
                jobs = []
                # every thread has applications of its own, or they are shared
                shared = rng.random() < .3
                for t in range(2 if n == 2 or rng.random() < .5 else 3):
                    lst = []
                    for _ in range(rng.choice([1, 1, 2])):
                        if rng.random() < .12:
                            lst.append(('act', ('new', rng.choice(NEW))))
                        if shared:
                            lst.append(rnd_node(rng, n, pool, rng.choice([0, 1])))
                        else:
                            s = rng.choice(pool)
                            own = tuple((rng.randrange(5), rng.choice([('new', rng.choice(NEW)), ('copyreq', t % n, True), ('copyresp', t % n, True, True)])) for _ in range(rng.choice([0, 0, 1])))
                            lst.append((t % n,) + s + (own,))
                    jobs.append(tuple(lst))
                opcodes = rng.random() < .1
                top = 6000 if opcodes else 900
                plan = []
                for _ in range(rng.choice([1, 2, 3, 4, 6, 10])):
                    t = rng.randrange(len(jobs))
                    plan.append((t, int(top * rng.random() ** 1.5) + 1, rng.choice([j for j in range(len(jobs)) if j != t])))
                run_case(ctx, ('sched', configs, tuple(jobs), tuple(plan), rng.randrange(len(jobs)), opcodes), ref, mine)
    finally:
        ctx.obs['references'] += len(ref.cache)
        ref.close()
