"""Monitor state shared by all property checks."""
import collections
import hashlib
import random
import signal
import traceback


class Violation(Exception):
    def __init__(self, msg, mech="", detail=None):
        super().__init__(msg)
        self.msg = msg
        self.mech = mech
        self.detail = detail


class Skip(Exception):
    """The generated case is outside the property's domain."""


class Hang(BaseException):
    pass


def rep(x, n=400):
    try:
        s = repr(x)
    except RecursionError:
        s = f"<{type(x).__name__}: repr recursion>"
    except Exception as e:
        s = f"<{type(x).__name__}: repr failed {type(e).__name__}>"
    return s if len(s) <= n else s[:n] + "..."


class Mon:
    def __init__(self):
        self.counters = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.trace = []
        self.nontrivial = False

    # --- per case
    def begin(self):
        self.trace = []
        self.nontrivial = False

    def end(self):
        if self.nontrivial:
            h = hashlib.blake2b("\n".join(self.trace).encode("utf-8", "replace"), digest_size=8)
            d = h.hexdigest()
            if d not in self.sigs:
                self.sigs.add(d)
                if len(self.samples) < 2 and 0 < len(self.trace) < 60:
                    self.samples.append(list(self.trace))

    def log(self, *parts):
        """Record an event of the current case's history."""
        self.trace.append(" ".join(p if isinstance(p, str) else rep(p) for p in parts))

    def ev(self, kind, n=1):
        """Count an observation made by the oracle."""
        self.counters[kind] += n
        self.nontrivial = True

    def stat(self, kind, n=1):
        self.counters[kind] += n

    def fail(self, msg, mech="", **detail):
        raise Violation(msg, mech, {k: rep(v, 3000) for k, v in detail.items()})

    def check(self, cond, msg, mech="", **detail):
        if not cond:
            self.fail(msg, mech, **detail)


def case_rng(prop, seed, worker, i):
    return random.Random(f"{prop}:{seed}:{worker}:{i}")


CASE_CPU_LIMIT = 60.0


def _on_alarm(signum, frame):
    raise Hang()


def run_case(mod, mon, prop, seed, worker, i):
    """Run one case; returns None or a violation record."""
    rng = case_rng(prop, seed, worker, i)
    mon.begin()
    signal.signal(signal.SIGPROF, _on_alarm)
    limit = getattr(mod, "CASE_CPU_LIMIT", CASE_CPU_LIMIT)
    signal.setitimer(signal.ITIMER_PROF, limit)
    v = None
    try:
        try:
            mod.case(rng, mon, i)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        mon.end()
    except Skip:
        mon.stat("skipped")
    except Violation as e:
        v = dict(msg=e.msg, mech=e.mech, detail=e.detail, tb=traceback.format_exc(limit=-6))
    except Hang:
        v = dict(
            msg=f"the operation did not terminate within {limit:.0f} CPU seconds",
            mech="hang",
            detail=None,
            tb=traceback.format_exc(limit=-12),
        )
    except KeyboardInterrupt:
        raise
    except MemoryError:
        v = dict(msg="the operation exhausted 4 GB of memory", mech="memory", detail=None, tb="")
    except BaseException as e:
        v = dict(
            msg=f"unexpected {type(e).__name__}: {rep(str(e), 600)}",
            mech="unexpected:" + type(e).__name__,
            detail=None,
            tb=traceback.format_exc(limit=-12),
        )
    if v is not None:
        v.update(case=i, worker=worker, seed=seed, trace=mon.trace[-80:])
    return v
