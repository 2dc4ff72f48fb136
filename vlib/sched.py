"""A deterministic scheduler for real threads: exactly one of them runs at a time, and control is handed over at chosen trace events.

Every thread runs under sys.settrace; a line (or opcode) event inside one of the watched files is a step of its thread. A plan is a list of
(thread, step, next thread): when that thread is about to execute that step of its own, the next thread runs instead. A thread that ends
passes control on in the order of the threads. If the running thread makes no progress although it was given control (it waits for a lock
a paused thread holds), the others are released one by one, which is counted.
"""
import sys
import threading
import time


class Aborted(BaseException):
    pass


class Sched:
    STALL = 0.5
    FAST_STALL = 0.03     # once stalls are known to happen
    stalls = 0

    def __init__(self, watched, opcodes=False):
        self.watched = watched            # predicate on code objects
        self.opcodes = opcodes
        self.verdict = {}                 # code -> traced?

    # ------------------------------------------------------------------ tracing
    def traced(self, code):
        v = self.verdict.get(code)
        if v is None:
            v = self.verdict[code] = bool(self.watched(code))
        return v

    def record(self, fn):
        """Run fn alone -> list of (file, line) of its steps."""
        out = []
        kind = 'opcode' if self.opcodes else 'line'

        def local(frame, event, arg):
            if event == kind:
                out.append((frame.f_code.co_filename, frame.f_lineno, frame.f_lasti) if self.opcodes else (frame.f_code.co_filename, frame.f_lineno))
            return local

        def glob(frame, event, arg):
            if event == 'call' and self.traced(frame.f_code):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local
        sys.settrace(glob)
        try:
            fn()
        finally:
            sys.settrace(None)
        return out

    def run(self, fns, plan, first=0, warm=None, limit=60):
        """Run the functions on one thread each, under the plan. -> report dict"""
        n = len(fns)
        locks = [threading.Lock() for _ in fns]
        for lk in locks:
            lk.acquire()
        todo = [sorted((s, t) for i, s, t in plan if i == k) for k in range(n)]
        done = [False] * n
        steps = [0] * n
        errors = [None] * n
        switches = []
        state = {'current': first, 'released': 0, 'free': False}
        finished = threading.Event()
        mutex = threading.Lock()

        def hand_over(me, to):
            """Give control to `to` (or the next thread alive)."""
            if done[to]:
                return False
            state['current'] = to
            locks[to].release()
            return True

        def at(me, frame):
            # called with control, when this thread reaches a planned step
            q = todo[me]
            while q and q[0][0] <= steps[me]:
                _, to = q.pop(0)
                if state['free'] or to == me or done[to]:
                    continue
                switches.append((me, to, frame.f_code.co_name, frame.f_lineno))
                state['current'] = to
                try:
                    locks[to].release()
                except RuntimeError:
                    continue
                locks[me].acquire()

        def body(me):
            kind = 'opcode' if self.opcodes else 'line'
            q = todo[me]

            def local(frame, event, arg):
                if event == kind:
                    steps[me] += 1
                    if q and q[0][0] <= steps[me]:
                        at(me, frame)
                return local

            opcodes = self.opcodes
            traced = self.traced

            def glob(frame, event, arg):
                if traced(frame.f_code):
                    if opcodes:
                        frame.f_trace_opcodes = True
                    return local
            if warm:
                with mutex:
                    warm(me)
                barrier.wait()
            locks[me].acquire()
            sys.settrace(glob)
            try:
                fns[me]()
            except BaseException as e:
                errors[me] = e
            finally:
                sys.settrace(None)
                done[me] = True
                for k in range(1, n):
                    to = (me + k) % n
                    if not done[to]:
                        state['current'] = to
                        try:
                            locks[to].release()
                        except RuntimeError:
                            pass
                        break
                else:
                    finished.set()
        barrier = threading.Barrier(n)
        threads = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(n)]
        for t in threads:
            t.start()
        locks[first].release()
        t0 = time.monotonic()
        last = (-1, 0)
        while not finished.wait(self.STALL if Sched.stalls < 5 else self.FAST_STALL):
            now = (sum(steps), sum(done))
            if now == last:
                # no progress: the running thread waits for something of a paused one
                state['released'] += 1
                Sched.stalls += 1
                cur = state['current']
                for k in range(1, n):
                    to = (cur + k) % n
                    if not done[to] and locks[to].locked():
                        state['current'] = to
                        try:
                            locks[to].release()
                        except RuntimeError:
                            pass
                        break
            last = now
            if time.monotonic() - t0 > limit:
                break
        for t in threads:
            t.join(5)
        return dict(steps=steps, errors=errors, switches=switches, stalls=state['released'], hung=not all(done))
