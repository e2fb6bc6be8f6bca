"""Running scripts in threads: sequentially, freely, or under a seeded scheduler that owns every line."""
import hashlib
import sys
import threading

WAIT = 120.0


class Scheduler:
    """Only the owner of the token runs; the token may move at every traced line of the code under test."""

    def __init__(self, rng, n, prefixes, p, opcodes=False, points=()):
        self.r, self.n, self.p = rng, n, p
        self.prefixes = tuple(prefixes)
        self.opcodes = opcodes
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set()
        self.events = self.switches = 0
        self.trace = hashlib.blake2b(digest_size=8)
        self.free = False
        self.points = set(points)
        self.where = set()

    def start(self, k):
        self.sems[k].acquire()
        sys.settrace(self.tracer(k))

    def tracer(self, k):
        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                self.point(k, frame)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.prefixes):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                self.point(k, frame)
                return local
            return None

        return glob

    def point(self, k, frame):
        if self.free:
            sys.settrace(None)
            return
        self.events += 1
        if self.events in self.points or (self.p and self.r.random() < self.p):
            others = [j for j in self.alive if j != k]
            if not others:
                return
            j = self.r.choice(sorted(others))
            self.switches += 1
            at = f"{k}>{j}@{frame.f_code.co_filename.rsplit('/', 1)[-1]}:{frame.f_lineno}"
            self.trace.update(at.encode())
            self.where.add(at)
            self.hand(j)
            if not self.sems[k].acquire(timeout=WAIT / 2):
                self.give_up()

    def give_up(self):
        """From here on the threads run freely."""
        self.free = True
        for s in self.sems:
            s.release()

    def hand(self, j):
        self.sems[j].release()

    def stop(self, k):
        sys.settrace(None)
        self.alive.discard(k)
        if self.alive:
            self.hand(self.r.choice(sorted(self.alive)))

    def begin(self):
        self.alive = set(range(self.n))
        self.hand(self.r.randrange(self.n))


def run(scripts, sched=None, interval=None):
    """Run scripts (functions without arguments) in threads; returns their results, or None on a hang."""
    n = len(scripts)
    out = [None] * n
    bar = threading.Barrier(n)

    def body(k):
        try:
            if sched is not None:
                sched.start(k)
            else:
                bar.wait()
            try:
                out[k] = ("done", scripts[k]())
            finally:
                if sched is not None:
                    sched.stop(k)
        except BaseException as e:  # noqa: a script never raises by itself
            out[k] = ("raised", f"{type(e).__name__}: {e}")

    old = sys.getswitchinterval()
    stack = threading.stack_size(192 << 20)
    if interval:
        sys.setswitchinterval(interval)
    try:
        ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(n)]
        for t in ts:
            t.start()
        if sched is not None:
            sched.begin()
        for t in ts:
            t.join(WAIT)
        if any(t.is_alive() for t in ts):
            return None
    finally:
        sys.setswitchinterval(old)
        threading.stack_size(stack)
    return out
