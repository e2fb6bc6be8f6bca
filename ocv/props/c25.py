"""C25: concurrent use from several threads gives the sequential results."""
import copy
import os
import pathlib
import pickle
import random
import subprocess
import sys
import tempfile
import time
import warnings

from omegaconf import DictConfig, OmegaConf
from omegaconf.base import Container

from ocv import cold, inter
from ocv import types_ as T
from ocv.core import Mon, Skip
from ocv.gen import G
from ocv.props import c14, c20
from ocv.reads import Reads, attempt
from ocv.snap import first_diff, snap, wellformed
from ocv.threads import Scheduler, run

CASE_CPU_LIMIT = 300.0
SCRATCH = ""


def r_select(key, *, _root_):
    time.sleep(0)
    return OmegaConf.select(_root_, str(key))


def r_yield(x):
    time.sleep(0.0002)
    return x


def r_create(x, *, _parent_):
    c = OmegaConf.create({"a": x, "b": "${a}-${ocv_join:1,${a}}", "c": {"d": "${..b}"}})
    time.sleep(0)
    return str(c.c.d)


def r_fail(x=None):
    try:
        OmegaConf.create({"a": "${b.${}"}).a
    except Exception:
        time.sleep(0)
    raise ValueError(f"no {x}")


def r_memo(x, *rest):
    return [pathlib.PurePosixPath("/" + str(x)), {"k": [str(x), len(rest)]}]


COPIES = [
    ("deepcopy", lambda c: OmegaConf.to_container(copy.deepcopy(c), resolve=True)),
    ("pickle", lambda c: OmegaConf.to_container(pickle.loads(pickle.dumps(c)), resolve=True)),
    ("merge", lambda c: OmegaConf.to_container(OmegaConf.merge(c, c), resolve=True)),
    ("merge over", lambda c: OmegaConf.to_container(OmegaConf.merge({"zz": 1, "a": 2}, c, {"zz": "${a}"}))),
    ("masked", lambda c: OmegaConf.to_container(OmegaConf.masked_copy(c, ["a", "c", "e"]))),
]


def setup(scratch):
    c20.setup(scratch)
    OmegaConf.clear_resolver("ocv_cached")
    OmegaConf.register_new_resolver("ocv_select", r_select)
    OmegaConf.register_new_resolver("ocv_yield", r_yield)
    OmegaConf.register_new_resolver("ocv_create", r_create)
    OmegaConf.register_new_resolver("ocv_fail", r_fail)
    OmegaConf.register_new_resolver("ocv_memo", r_memo, use_cache=True)


NAMES = ["ocv_id", "ocv_join", "ocv_n", "ocv_select", "ocv_create", "ocv_fail"]


def a_text(rng):
    """An interpolation string, well formed or not."""
    keys = ["a", "b", "c", "c.d", "e"]
    gen = inter.Gen(rng, lambda r: (0, r.choice(keys).split(".")), resolvers=NAMES, depth=rng.choice([0, 1, 2, 3]))
    t, _ = gen.inter(rng.choice([1, 2, 3]))
    if rng.random() < 0.3:
        t = rng.choice(["x ", "${a}", "", "\\", "$"]) + t + rng.choice([" y", "${b}", "", "}", "${"])
    if rng.random() < 0.2 and len(t) > 3:
        j = rng.randrange(len(t))
        t = t[:j] + rng.choice(["", "{", "}", "'", ",", "${", ":", "[", " "]) + t[j + 1 :]
    return t


def crossed(rng):
    """A config whose values refer to each other, some through functions that let other threads run."""
    keys = ["a", "b", "c", "d", "e", "f", "g"]
    tree = {"a": rng.choice([1, "x", [1, 2], {"k": 1}])}
    for j, k in enumerate(keys[1:], 1):
        ref = "${%s}" % rng.choice(keys[:j])
        v = rng.choice([ref, ref, "${ocv_yield:%s}" % ref, "${ocv_yield:%s}" % ref, "<%s>" % ref, "${ocv_memo:%s,%d}" % (k, j), "${ocv_memo:%s}" % k, "${ocv_select:%s}" % rng.choice(keys[:j])])
        x = rng.random()
        # the same chain at any depth
        tree[k] = v if x < 0.6 else {"v": v, "w": "${.v}"} if x < 0.8 else [v, "${.0}"]
    return OmegaConf.create(tree)


def copied(rng):
    """A config that is copied by some threads while others are the first to read it."""
    n = rng.choice([3, 8, 20])
    tree = {}
    for j in range(n):
        v = "${ocv_memo:%s}" % rng.choice([j, "%d,%d" % (j, j), "${a}"])
        tree[f"k{j}"] = rng.choice([v, v, [v], {"v": v, "w": 1}, j])
    tree["a"] = "x"
    cfg = OmegaConf.create(tree)
    for _ in range(rng.randint(0, 3)):
        cfg[rng.choice(list(tree))]  # something is cached already
    reads = [("read " + k, lambda c, k=k: (c[k], OmegaConf.to_container(OmegaConf.create({"x": c[k]}), resolve=True))[1]) for k in tree]

    def flags(c, f):
        return [f(c), *(f(x) for x in c._content.values() if isinstance(x, Container))]

    for f in (OmegaConf.is_readonly, OmegaConf.is_struct, lambda x: x._get_flag("allow_objects"), lambda x: x._get_flag("mine")):
        reads.append(("flags", lambda c, f=f: flags(c, f)))
    return cfg, reads


class Plan:
    """What every thread does, the same for the same seed."""

    def __init__(self, seed, n, steps):
        rng = random.Random(seed)
        T.reset()
        self.shared = None
        self.desc = []
        self.hot = None
        x = rng.random()
        self.first = None
        if rng.random() < 0.15:
            self.shared, self.first = copied(rng)
        elif x < 0.5:
            _, self.shared = c20.build(rng, Mon())
        elif x < 0.8:
            self.shared = crossed(rng)
            if rng.random() < 0.7:
                # every reader does the same reads, from places of its own
                rd = Reads(rng, self.shared)
                self.hot = [rd.draw() for _ in range(rng.randint(1, 1 + steps // 2))]
                if rng.random() < 0.5:
                    # copying while the others are the first to read
                    self.hot += rng.sample(COPIES, rng.randint(1, 2))
                self.hot.append(("all", lambda c: OmegaConf.to_container(c, resolve=True)))
        self.scs = T.gen_scs(G(rng), 2, depth=2)
        self.scripts = []
        for k in range(n):
            kind = "reader" if self.first else rng.choice(["reader"] * 4 + ["own", "refs", "texts", "yaml", "structured"])
            if kind == "reader" and self.shared is None:
                kind = rng.choice(["texts", "refs", "own"])
            self.desc.append(kind)
            self.scripts.append(getattr(self, kind)(rng, steps))

    def reader(self, rng, steps):
        if self.first:
            if rng.random() < 0.5:
                ops = rng.sample(COPIES, rng.randint(1, 3)) * (1 + steps // 4)
            else:
                ops = rng.sample(self.first, len(self.first)) * 2
        elif self.hot:
            k = rng.randrange(len(self.hot))
            ops = (self.hot[k:] + self.hot[:k]) * 2
        else:
            rd = Reads(rng, self.shared)
            ops = [rd.draw() for _ in range(rng.randint(2, 2 + steps))]

        def script():
            return [(d, attempt(lambda: f(self.shared))) for d, f in ops]

        return script

    def own(self, rng, steps):
        _, cfg = c20.build(rng, Mon())
        rd = Reads(rng, cfg)
        ops = [rd.draw() for _ in range(rng.randint(2, 2 + steps))]

        def script():
            return [(d, attempt(lambda: f(cfg))) for d, f in ops]

        return script

    def refs(self, rng, steps):
        seed = rng.getrandbits(60)

        def script():
            # created, changed and read by the thread itself
            r = random.Random(seed)
            w = c14.W(r, Mon(), calls=r.random() < 0.5)
            out = []
            for _ in range(1 + steps // 4):
                for _ in range(r.randint(0, 2)):
                    w.step()
                d, f = Reads(r, w.cfg).draw()
                out.append((d, attempt(lambda: f(w.cfg))))
            out.append(("all", attempt(lambda: OmegaConf.to_container(w.cfg, resolve=True))))
            return out

        return script

    def texts(self, rng, steps):
        ts = [a_text(rng) for _ in range(rng.randint(1, 1 + steps // 2))]
        tree = {"a": 1, "b": "${a}${a}", "c": {"d": [1, "${..b}"], "a": "${.d}"}, "e": None}

        def script():
            out = []
            for t in ts:
                out.append((t, attempt(lambda: OmegaConf.create({"x": t, **tree}).x)))
                out.append((t, attempt(lambda: OmegaConf.select(OmegaConf.create(tree), "c.a"))))
                out.append((t, attempt(lambda: OmegaConf.to_container(OmegaConf.create({"l": [t, t], **tree}), resolve=True))))
            return out

        return script

    def yaml(self, rng, steps):
        g = G(rng)
        trees = [g.tree(depth=3, root=rng.choice(["dict", "list"])) for _ in range(1 + steps // 4)]

        def script():
            out = []
            for t in trees:
                c = OmegaConf.create(t)
                y = attempt(lambda: OmegaConf.to_yaml(c))
                out.append(("to_yaml", y))
                if y[0] == "ok":
                    y = OmegaConf.to_yaml(c)
                    out.append(("load", attempt(lambda: OmegaConf.create(y))))
                    out.append(("broken", attempt(lambda: OmegaConf.create(y + "\n: : [}"))))
            return out

        return script

    def structured(self, rng, steps):
        g = G(rng)
        sc = rng.choice(self.scs)
        vals = [{n: T.gen_value(t, g, special=0.1) for n, t in sc.types.items()} for _ in range(1 + steps // 4)]

        def script():
            out = []
            for v in vals:
                base = attempt(lambda: OmegaConf.structured(sc.cls))
                out.append(("class", base))
                out.append(("merge", attempt(lambda: OmegaConf.merge(sc.cls, v))))
                out.append(("object", attempt(lambda: OmegaConf.to_object(OmegaConf.merge(sc.cls, v)))))
                out.append(("bad", attempt(lambda: OmegaConf.merge(sc.cls, {"zz": 1}))))
            return out

        return script


def compare(mon, desc, want, got, how):
    for k, (w, g) in enumerate(zip(want, got)):
        if g is None or g[0] != "done":
            mon.fail(f"thread {k} ({desc[k]}) did not finish {how}: {g!r:.500}", "thread")
        g = g[1]
        mon.check(len(w) == len(g), f"thread {k} ({desc[k]}) has {len(g)} results {how}, {len(w)} sequentially", "results")
        for a, b in zip(w, g):
            if a != b:
                if "RecursionError" in repr(a) or "RecursionError" in repr(b):
                    mon.stat("recursion_ignored")
                    continue
                mon.fail(f"thread {k} ({desc[k]}) {how}: {b!r:.500}, sequentially: {a!r:.500}", "results")
            mon.ev("concurrent_results_agreed")


def run_all(scripts, measure):
    """Results of the scripts one after the other, and how deep their calls went."""
    d = top = 0

    def prof(frame, event, arg):
        nonlocal d, top
        if event == "call":
            d += 1
            if d > top:
                top = d
        elif event == "return":
            d -= 1

    if measure:
        sys.setprofile(prof)
    try:
        return [s() for s in scripts], top
    finally:
        sys.setprofile(None)


def warm(rng, mon, controlled):
    n = rng.choice([2, 2, 3, 4]) if controlled else rng.choice([4, 8, 8])
    steps = rng.choice([2, 5, 8]) if controlled else rng.choice([8, 15])
    seed = rng.getrandbits(60)
    try:
        a = Plan(seed, n, steps)
        want, deep = run_all(a.scripts, controlled)
        if deep > 200:
            controlled = False  # CPython crashes when a traced thread runs into the recursion limit
        if a.shared is not None:
            again = [s() for d, s in zip(a.desc, a.scripts) if d == "reader"]
            first = [w for d, w in zip(a.desc, want) if d == "reader"]
            if repr(again) != repr(first):
                raise Skip()  # the reads themselves are not repeatable (C28's business)
        b = Plan(seed, n, steps)
    except RecursionError:
        raise Skip()
    mon.log("controlled" if controlled else "free", f"seed={seed} n={n} steps={steps}", repr(a.desc))
    if b.shared is not None:
        before = snap(b.shared, ids=True)
    if controlled:
        p = rng.choice([0, 0.5, 0.1, 0.1, 0.03, 0.01, 0.003])
        points = [int(10 ** rng.uniform(0, 4.7)) for _ in range(rng.randint(2, 12))] if p < 0.02 else ()
        opc = rng.random() < 0.15
        s = Scheduler(random.Random(rng.getrandbits(60)), n, [os.path.join(SCRATCH, "omegaconf") + os.sep, copy.__file__], p, opc, points)
        got = run(b.scripts, s)
        mon.log("schedule", s.trace.hexdigest(), f"switches={s.switches} events={s.events} p={p}")
        mon.stat("traced_points", s.events)
        mon.stat("context_switches_forced", s.switches)
        mon.stat("switch_places", len(s.where))
        if s.free:
            mon.stat("scheduler_gave_up")
        how = f"under schedule {s.trace.hexdigest()} ({s.switches} switches)"
    else:
        interval = rng.choice([1e-6, 1e-6, 1e-5, 1e-4])
        got = run(b.scripts, None, interval)
        how = f"in free threads with switch interval {interval}"
        mon.stat("free_runs")
    if got is None:
        mon.fail(f"threads did not finish within {120} s {how}", "hang")
    compare(mon, b.desc, want, got, how)
    if b.shared is not None:
        d = first_diff(before, snap(b.shared, ids=True))
        mon.check(d is None, f"concurrent reads changed the shared config {how}: {d}", "shared-changed")
        wellformed(b.shared, mon, f"after concurrent reads {how}")
        for j, (kind, s) in enumerate(zip(b.desc, b.scripts)):
            if kind == "reader":
                mon.check(repr(s()) == repr(want[j]), f"after running {how}, the reads of thread {j} give other results", "after")
                mon.ev("shared_reads_after_agreed")
    mon.stat("schedules_explored")


def cold_case(rng, mon):
    jobs = []
    for _ in range(rng.choice([2, 3, 4, 8])):
        w = c14.W(rng, Mon(), calls=False)
        tree = OmegaConf.to_container(w.cfg)
        ps = [".".join(str(k) for k in p) for p in c14.paths(tree)]
        g = G(rng)
        texts = [a_text(rng) for _ in range(rng.randint(2, 5))]
        yamls = [OmegaConf.to_yaml(OmegaConf.create(g.tree(depth=2, root="dict"))), "a: ${b}\nb: [1, 1e3, yes", "x: ${a.b}\ny: 1e-3\n"]
        jobs.append(dict(tree=tree, paths=ps[:8], texts=texts, yamls=yamls, dots=["a.b=1", "a.c=[x,${a.b}]", "l=${a.b}"]))
    mode = rng.choice(["import", "free", "scheduled", "scheduled"])
    job = dict(
        jobs=jobs,
        mode=mode,
        seed=rng.getrandbits(60),
        p=rng.choice([0.1, 0.02, 0.005, 0.001]),
        points=[int(10 ** rng.uniform(1, 5)) for _ in range(5)],
        interval=rng.choice([1e-6, 1e-5]),
    )
    saved = [(n, f) for n, f in (("ocv_yield", r_yield), ("ocv_select", r_select), ("ocv_create", r_create), ("ocv_fail", r_fail))]
    # the child knows no custom resolvers
    OmegaConf.clear_resolvers()
    try:
        want = [cold.script(j) for j in jobs]
    finally:
        setup(SCRATCH)
    assert saved
    with tempfile.TemporaryDirectory(prefix="ocv_cold_") as d:
        jf, of = os.path.join(d, "job"), os.path.join(d, "out")
        with open(jf, "wb") as f:
            pickle.dump(job, f)
        p = subprocess.run(
            [sys.executable, cold.__file__, SCRATCH, jf, of],
            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=280,
        )  # fmt: skip
        if p.returncode != 0 or not os.path.exists(of):
            mon.fail(f"first use in a process by {len(jobs)} threads ({mode}) ended with {p.returncode}: {p.stderr[-600:]!r}", "cold")
        with open(of, "rb") as f:
            got, stats = pickle.load(f)
    mon.log("cold", mode, f"threads={len(jobs)}", repr(stats))
    if got is None:
        mon.fail(f"first use in a process by {len(jobs)} threads ({mode}) did not finish", "hang")
    want = [[(i, x) for i, x in enumerate(w)] for w in want]
    got = [(g[0], [(i, x) for i, x in enumerate(g[1])] if g[0] == "done" else g[1]) for g in got]
    compare(mon, [mode] * len(jobs), want, got, f"at first use in a process ({mode})")
    mon.stat("cold_starts_" + mode)
    mon.stat("context_switches_forced", stats["switches"])


def case(rng, mon, i):
    r = rng.random()
    if r < 0.12:
        cold_case(rng, mon)
    else:
        warm(rng, mon, r < 0.8)
