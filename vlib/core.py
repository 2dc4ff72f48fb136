"""Shared runtime for the checks: seeds, shards, counters, verdicts, evidence."""
import hashlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = int(os.environ.get('VERIF_NPROC', '8'))

# never read or write byte code next to the sources: always run the sources as they are
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/verif-pycache'


def import_repo():
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != VERIF + '/x']
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import ombott
    if not os.path.abspath(ombott.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError('ombott imported from %s, not from %s' % (ombott.__file__, REPO))
    return ombott


MAX_DATA = 2 << 30

# CPU seconds without a finished case (cases take milliseconds, the slowest a few seconds)
STALL_CPU = 150


class Hang(BaseException):
    """CPU-time watchdog fired."""


class Spin(Hang):
    """The code under test keeps asking an exhausted stream for more."""


USELESS_READS = 5000      # reads at the end of a stream that one request may make (a few are usual)


class Inconclusive(Exception):
    pass


def _on_alarm(signum, frame):
    raise Hang()


class watchdog:
    """CPU-time (not wall-clock) limit for one case; raises Hang in the main thread."""

    def __init__(self, cpu_s=30.0):
        self.cpu_s = cpu_s

    def __enter__(self):
        self.old = signal.signal(signal.SIGPROF, _on_alarm)
        signal.setitimer(signal.ITIMER_PROF, self.cpu_s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)
        return False


def jsonable(o):
    if isinstance(o, (bytes, bytearray)):
        return {'__b__': bytes(o).decode('latin1')}
    if isinstance(o, dict):
        return {'__d__': [[jsonable(k), jsonable(v)] for k, v in o.items()]}
    if isinstance(o, tuple):
        return {'__t__': [jsonable(x) for x in o]}
    if isinstance(o, list):
        return [jsonable(x) for x in o]
    if o is None or isinstance(o, (str, int, float, bool)):
        return o
    return {'__r__': repr(o)}


def unjson(o):
    if isinstance(o, list):
        return [unjson(x) for x in o]
    if isinstance(o, dict):
        if '__b__' in o:
            return o['__b__'].encode('latin1')
        if '__d__' in o:
            return {unjson(k): unjson(v) for k, v in o['__d__']}
        if '__t__' in o:
            return tuple(unjson(x) for x in o['__t__'])
        if '__r__' in o:
            return o['__r__']
    return o


def digest(o):
    return hashlib.blake2b(repr(o).encode('utf8', 'surrogatepass'), digest_size=8).digest()


class Ctx:
    MAX_VIOLATIONS = 40

    def __init__(self, pid, tier, seed, shard=None):
        self.pid, self.tier, self.seed, self.shard = pid, tier, seed, shard
        self.rng = random.Random('%s/%s/%s' % (seed, pid, shard))
        self.obs = Counter()          # what the monitors observed
        self.evaluations = 0
        self.distinct = set()
        self.samples = {}             # class -> case text
        self.violations = {}          # key -> [count, msg, case]
        self.nontrivial = 0

    quick = property(lambda s: s.tier == 'quick')

    def scale(self, quick, thorough):
        return quick if self.tier == 'quick' else thorough

    def seen(self, case, nontrivial=True, cls=None):
        """Count one evaluated case."""
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(digest(case))
        if cls is not None and cls not in self.samples and len(self.samples) < 24:
            t = repr(case)
            self.samples[cls] = t if len(t) < 600 else t[:600] + '...'

    def violation(self, key, msg, case=None):
        self.obs['violating_executions'] += 1
        v = self.violations.get(key)
        if v:
            v[0] += 1
        elif len(self.violations) < self.MAX_VIOLATIONS:
            self.violations[key] = [1, msg, jsonable(case)]

    def export(self):
        return dict(obs=dict(self.obs), evaluations=self.evaluations, distinct=self.distinct,
                    samples=self.samples, violations=self.violations)

    def merge(self, d):
        self.obs.update(d['obs'])
        self.evaluations += d['evaluations']
        self.distinct |= d['distinct']
        for k, v in d['samples'].items():
            if len(self.samples) < 24:
                self.samples.setdefault(k, v)
        for k, v in d['violations'].items():
            mine = self.violations.get(k)
            if mine:
                mine[0] += v[0]
            else:
                self.violations[k] = v


def from_repo(exc):
    """Was this exception raised by the code under test (and not by the harness)?"""
    last = None
    root = os.path.abspath(REPO) + os.sep
    for fr, _ in traceback.walk_tb(exc.__traceback__):
        fn = os.path.abspath(fr.f_code.co_filename)
        if fn.startswith(root):
            last = 'repo'
        elif fn.startswith(VERIF + os.sep):
            last = 'verif'
    return last == 'repo'


class _Stall(BaseException):
    """The code under test computes and computes and no case ends."""


def _watch_progress(ctx, cpu_s):
    last = [-1, 0.0]

    def tick(signum, frame):
        now = time.process_time()
        if ctx.evaluations != last[0]:
            last[:] = ctx.evaluations, now
        elif now - last[1] > cpu_s:
            f = frame
            while f is not None:
                if f.f_code.co_filename.startswith(os.path.abspath(REPO) + os.sep):
                    raise _Stall()
                f = f.f_back
    signal.signal(signal.SIGALRM, tick)
    signal.setitimer(signal.ITIMER_REAL, 5, 5)


def _shard_main(conn, mod, pid, tier, seed, shard):
    try:
        ctx = Ctx(pid, tier, seed, shard)
        try:
            _watch_progress(ctx, STALL_CPU)
            # a runaway must not take the machine along (the usual need is far below)
            top = getattr(mod, 'MAX_DATA', MAX_DATA)
            resource.setrlimit(resource.RLIMIT_DATA, (top, top))
            mod.run_shard(ctx, shard)
        except _Stall:
            ctx.violation('no-end', 'no result after %d s of CPU time:\n%s' % (STALL_CPU, traceback.format_exc()[-2500:]), None)
        except Spin:
            ctx.violation('no-end', 'an exhausted stream is read for ever:\n%s' % traceback.format_exc()[-2500:], None)
        except MemoryError:
            ctx.violation('no-end', 'more than %d MB of memory needed:\n%s' % (top >> 20, traceback.format_exc()[-2500:]), None)
        except Exception as e:
            if not from_repo(e):
                raise
            # the code under test raised where the workload calls for a result
            ctx.violation('unexpected-exception/%s' % type(e).__name__, traceback.format_exc()[-2500:], None)
        conn.send(('ok', ctx.export()))
    except BaseException:
        conn.send(('err', traceback.format_exc()))
    finally:
        conn.close()
        os._exit(0)


def run_shards(mod, ctx, shards, wall_limit):
    """Run mod.run_shard for each shard in forked processes, merge. Returns list of errors."""
    mp = multiprocessing.get_context('fork')
    todo = list(shards)
    running = []
    errors = []
    t0 = time.time()
    while todo or running:
        while todo and len(running) < NPROC:
            sh = todo.pop(0)
            r, w = mp.Pipe(False)
            sys.stdout.flush()
            sys.stderr.flush()
            p = mp.Process(target=_shard_main, args=(w, mod, ctx.pid, ctx.tier, ctx.seed, sh))
            p.start()
            w.close()
            running.append((p, r, sh))
        multiprocessing.connection.wait([r for _, r, _ in running], timeout=1.0)
        still = []
        for p, r, sh in running:
            if r.poll():
                try:
                    kind, val = r.recv()
                except EOFError:
                    kind, val = 'err', 'shard %r died (exit code %r)' % (sh, p.exitcode)
                p.join(10)
                if kind == 'ok':
                    ctx.merge(val)
                    if os.environ.get('VERIF_FAILFAST') and set(ctx.violations) - set(load_known(ctx.pid)):
                        del todo[:]
                else:
                    errors.append('shard %r: %s' % (sh, val))
            else:
                still.append((p, r, sh))
        running = still
        if time.time() - t0 > wall_limit:
            for p, r, sh in running:
                p.kill()
                errors.append('shard %r: wall limit of %ss' % (sh, wall_limit))
            break
    return errors


def load_known(pid):
    out = {}
    fn = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(fn):
        with open(fn, encoding='utf8') as f:
            for ln in f:
                ln = ln.strip()
                if ln.startswith('finding: property=%s ' % pid):
                    rest = ln.split(' ', 2)[2]
                    assert rest.startswith('key='), ln
                    key, _, what = rest[4:].partition(' ')
                    out[key] = what
    return out


def main(mod):
    """Entry point used by checks/run.py."""
    pid = mod.PID
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import_repo()
    evdir = os.path.join(VERIF, 'evidence')
    if os.environ.get('VERIF_EVIDENCE'):
        evdir = os.environ['VERIF_EVIDENCE']
    os.makedirs(evdir, exist_ok=True)
    ctx = Ctx(pid, tier, seed)
    if hasattr(mod, 'prepare'):
        mod.prepare(ctx)
    shards = mod.shards(ctx)
    errors = run_shards(mod, ctx, shards, 780 if tier == 'quick' else 6 * 3600)
    known = load_known(pid)

    required = getattr(mod, 'REQUIRED', ())
    missing = [k for k in required if not ctx.obs.get(k)]

    unknown = {k: v for k, v in ctx.violations.items() if k not in known}
    known_seen = {k: v for k, v in ctx.violations.items() if k in known}

    ev = dict(
        property=pid, tier=tier, seed=seed, level=mod.LEVEL,
        coverage=dict(
            evaluations=ctx.evaluations,
            distinct_nontrivial=len(ctx.distinct),
            rule=mod.RULE,
            samples=['%s: %s' % kv for kv in sorted(ctx.samples.items())],
            observed=dict(sorted(ctx.obs.items())),
            shards=len(shards),
        ),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(unknown),
    )
    if known:
        ev['coverage']['known_findings_observed'] = sorted(known_seen)
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write('\n')

    print('%s tier=%s seed=%s evaluations=%d distinct=%d wall=%.1fs' % (
        pid, tier, seed, ctx.evaluations, len(ctx.distinct), time.time() - t0))
    for k, v in sorted(ctx.obs.items()):
        print('  observed %-40s %d' % (k, v))
    for k, v in sorted(known_seen.items()):
        print('KNOWN-FINDING: property=%s %s [%s, %d executions]' % (pid, known[k], k, v[0]))

    rc = 0
    if unknown:
        rdir = os.path.join(evdir, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for n, (k, (cnt, msg, case)) in enumerate(sorted(unknown.items())):
            fn = os.path.join(rdir, '%s-%d.json' % (pid, n))
            with open(fn, 'w') as f:
                json.dump(dict(property=pid, key=k, seed=seed, tier=tier, count=cnt, message=msg, case=case,
                               how='./check %s --replay %s' % (pid, fn)), f, indent=1)
            if n < 12:
                print('violation key=%s executions=%d\n    %s' % (k, cnt, str(msg).replace('\n', '\n    ')[:3000]))
                print('VIOLATION property=%s replay=%s' % (pid, fn))
        rc = 1
    if errors:
        for e in errors[:8]:
            print('CHECK-ERROR %s' % e, file=sys.stderr)
        if not rc:
            print('INCONCLUSIVE property=%s: %d shard(s) gave no answer' % (pid, len(errors)))
            rc = 2
    if missing and not rc:
        print('INCONCLUSIVE property=%s: never observed %s' % (pid, ', '.join(missing)))
        rc = 2
    sys.stdout.flush()
    return rc


def replay(mod, fn):
    import_repo()
    with open(fn) as f:
        d = json.load(f)
    if d['case'] is None:
        # no single case: run the check again as it was run
        os.environ['VERIF_SEED'], os.environ['VERIF_TIER'] = str(d['seed']), d['tier']
        return main(mod)
    ctx = Ctx(mod.PID, d.get('tier', 'quick'), d.get('seed', 1), 'replay')
    if hasattr(mod, 'prepare'):
        mod.prepare(ctx)
    mod.run_case(ctx, unjson(d['case']))
    for k, (cnt, msg, case) in ctx.violations.items():
        print('violation key=%s\n    %s' % (k, msg))
        print('VIOLATION property=%s replay=%s' % (mod.PID, fn))
    if not ctx.violations:
        print('replay: no violation')
    return 1 if ctx.violations else 0
