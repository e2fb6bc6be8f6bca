"""C16: unresolvable interpolations fail with the documented error, and always end."""
import warnings

from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.errors import (
    InterpolationKeyError,
    InterpolationResolutionError,
    InterpolationToMissingValueError,
    InterpolationValidationError,
    UnsupportedInterpolationType,
)

from ocv import inter
from ocv import types_ as T
from ocv.gen import G
from ocv.inter import Err
from ocv.props import c14
from ocv.snap import child, keys_of, raw, snap

CASE_CPU_LIMIT = 120.0


class Boom(Exception):
    pass


def boom(*a):
    raise Boom("boom resolver")


def boom_key(*a):
    raise KeyError("boom key")


def err(*a):
    raise Err("resolver")


CALLS = {**c14.CALLS, "ocv_boom": err, "ocv_boom_key": err}
NAMES = [*CALLS, "ocv_unknown", "ns.unknown"]


def setup(scratch):
    warnings.simplefilter("ignore")
    OmegaConf.clear_resolvers()
    for n, f in c14.CALLS.items():
        OmegaConf.register_new_resolver(n, f)
    OmegaConf.register_new_resolver("ocv_boom", boom)
    OmegaConf.register_new_resolver("ocv_boom_key", boom_key)


class W(c14.W):
    def ref_text(self, tree, here):
        if self.r.random() < 0.15:
            text, tr = inter.Gen(self.r, self.some_refs(tree, here), resolvers=NAMES, depth=1).call(1)
            tr = ("text", [tr])
            if self.r.random() < 0.3:
                text, tr = "pre " + text, ("text", ["pre "] + tr[1])
            self.trees[text] = tr
            return text
        if self.r.random() < 0.1 and here:
            # to an ancestor or to itself
            n = self.r.randint(1, len(here))
            keys = [str(k) for k in here[:n]]
            gen = inter.Gen(self.r, lambda rng: (0, keys), resolvers=(), depth=0)
            text, tr = gen.ref(0)
            if self.r.random() < 0.3:
                text, tr = text + "/x", ("text", [tr, "/x"])
            else:
                tr = ("text", [tr])
            self.trees[text] = tr
            return text
        return super().ref_text(tree, here)

    def some_refs(self, tree, here):
        ps = c14.paths(tree) or [("a",)]
        return lambda rng: (0, [str(k) for k in rng.choice(ps)])

    def env(self):
        e = super().env()
        e.calls = CALLS
        return e


WANT = {
    "key": InterpolationKeyError,
    "missing": InterpolationToMissingValueError,
    "name": UnsupportedInterpolationType,
    "resolver": InterpolationResolutionError,
    "cycle": InterpolationResolutionError,
    "parent": InterpolationResolutionError,
    "type": InterpolationResolutionError,
    "keytype": InterpolationResolutionError,
    "none": InterpolationResolutionError,
}


def check_error(mon, q, text, how, e, exc):
    want = WANT[e.kind]
    mon.check(exc is not None, f"{q} = {text!r} read by {how} does not fail, expected {e.kind}", "no error")
    ok = type(exc) is want
    if e.kind == "none":
        ok = type(exc) in (InterpolationResolutionError, InterpolationKeyError)
    if e.kind == "name":
        ok = isinstance(exc, (UnsupportedInterpolationType, InterpolationResolutionError))
    mon.check(ok, f"{q} = {text!r} read by {how} raises {type(exc).__name__}: {str(exc)[:200]}, expected {want.__name__} ({e.kind})", "error type")
    if e.kind == "resolver":
        mon.check("Boom" in str(exc) or "KeyError" in str(exc), f"{q} = {text!r}: the error of the resolver is lost: {str(exc)[:200]}", "error text")
    mon.ev("errors_agreed")
    mon.stat("kind_" + e.kind)


def read_all(w, mon, rng):
    env = w.env()
    broken = []
    before = snap(w.cfg, ids=True)
    for p, c in w.containers():
        for k in keys_of(c):
            q = p + (k,)
            text = env.raw(q)
            if not (type(text) is str and "${" in text):
                continue
            try:
                want, e = env.value(q), None
            except Err as x:
                want, e = None, x
            ways = [("item", lambda: c[k]), ("get", lambda: c.get(k)), ("node", lambda: child(c, k)._dereference_node())]
            sel = "".join(f"[{x}]" for x in q)
            ways.append(("select", lambda: OmegaConf.select(w.cfg, sel)))
            if isinstance(c, DictConfig):
                ways.append(("attribute", lambda: getattr(c, k)))
                ways.append(("values", lambda: c.items_ex(keys=[k])))
            for how, f in rng.sample(ways, 2):
                if how == "values" and len(c) > 1:
                    continue
                try:
                    got, exc = f(), None
                except (InterpolationResolutionError, UnsupportedInterpolationType) as x:
                    got, exc = None, x
                if e is None:
                    if exc is not None:
                        mon.fail(f"{q} = {text!r} read by {how} raises {exc!r:.300}, it denotes {want!r}", "resolve")
                    if how in ("item", "get", "attribute", "select"):
                        mon.check(c14.matches(w, env, got, want), f"{q} = {text!r} read by {how} gives {got!r}, expected {want!r}", "value")
                    mon.ev("other_reads_agreed")
                elif how == "select" and e.kind == "missing" and exc is None:
                    mon.check(got is None, f"{q} selected gives {got!r}", "select")
                else:
                    check_error(mon, q, text, how, e, exc)
            if e is not None:
                broken.append((q, text, e))
                # the quiet ways: they end, give the default and change nothing
                d = object()
                got = OmegaConf.select(w.cfg, sel, default=d, throw_on_resolution_failure=False)
                mon.check(got is d or got is None, f"{q} = {text!r}: select without raising gives {got!r}", "select quiet")
                mon.check(k in c if isinstance(c, DictConfig) else True, f"{q} = {text!r}: the key is reported as absent", "contains")
                mon.check(OmegaConf.is_interpolation(c, k) and not OmegaConf.is_missing(c, k), f"{q}: no longer an interpolation", "state")
                mon.ev("quiet_reads_agreed")
    # whole-config operations end
    for name, f in (
        ("to_container(resolve)", lambda: OmegaConf.to_container(w.cfg, resolve=True)),
        ("to_yaml(resolve)", lambda: OmegaConf.to_yaml(w.cfg, resolve=True)),
    ):
        try:
            want, e = w.plain(env, ()), None
        except Err as x:
            want, e = None, x
        try:
            f()
            exc = None
        except (InterpolationResolutionError, UnsupportedInterpolationType, RecursionError) as x:
            exc = x
        mon.check((exc is None) == (e is None), f"{name}: {exc!r:.200}, expected {e!r}", "conversion")
        mon.ev("conversions_agreed")
    OmegaConf.to_container(w.cfg)
    repr(w.cfg)
    after = snap(w.cfg, ids=True)
    mon.check(before == after, "failing reads changed the config", "changed", before=before, after=after)
    return broken


def repair(w, mon, rng, broken):
    """Repair what one broken reference points to; the next read_all sees the value."""
    q, text, e = rng.choice(broken)
    cfg = w.cfg
    mon.log("repair", e.kind, repr(e.at), "of", repr(q))
    if e.kind in ("cycle", "missing", "type", "none") and e.at:
        parent = w.node(e.at[:-1])
        if isinstance(parent, DictConfig) or isinstance(e.at[-1], int):
            parent[e.at[-1]] = rng.choice([3, "fixed", {"a": 1, "b": {"a": 2}}])
    elif e.kind == "key" and isinstance(e.at, tuple) and e.at:
        parent = w.node(e.at[:-1])
        if isinstance(parent, DictConfig):
            parent[e.at[-1]] = rng.choice([4, "there", {"a": 1, "b": {"a": 2}}])
        elif isinstance(parent, ListConfig):
            parent.append("more")
    else:
        parent = w.node(q[:-1])
        parent[q[-1]] = "plain"
    _ = cfg


def cycles(mon, rng):
    """Rings of references of any length, through lists, dicts and strings."""
    n = rng.choice([1, 2, 3, 4, 6, 10])
    kinds = [rng.choice(["leaf", "str", "list", "dict", "rel", "call"]) for _ in range(n)]

    def place(i):
        return {"list": f"k{i}[0]", "dict": f"k{i}.v"}.get(kinds[i], f"k{i}")

    cfg = {}
    for i in range(n):
        to = place((i + 1) % n)
        ref = "${" + to + "}"
        k = kinds[i]
        cfg[f"k{i}"] = {
            "leaf": ref, "str": "a" + ref, "list": [ref], "dict": {"v": ref, "w": 1}, "rel": "${." + to + "}", "call": "${ocv_id:" + ref + "}",
        }[k]  # fmt: skip
    for t in range(rng.randint(0, 3)):
        cfg[f"tail{t}"] = "${" + rng.choice([f"tail{t-1}"] if t else [place(rng.randrange(n))]) + "}"
    cfg["ok"] = "${good}"
    cfg["good"] = 5
    items = list(cfg.items())
    rng.shuffle(items)
    c = OmegaConf.create(dict(items))
    mon.log("ring", repr(dict(items)))
    before = snap(c, ids=True)
    targets = [place(i) for i in range(n)] + [k for k in cfg if k.startswith("tail")]
    rng.shuffle(targets)
    for t in targets:
        try:
            got = OmegaConf.select(c, t)
            mon.fail(f"select {t} in {cfg} gives {got!r}", "cycle")
        except InterpolationResolutionError:
            mon.ev("cycles_detected")
        mon.check(c.ok == 5, "another key is no longer readable", "state")
    for k in cfg:
        if k.startswith("k") and kinds[int(k[1:])] in ("leaf", "str", "rel", "call"):
            try:
                c[k]
                mon.fail(f"reading {k} in {cfg} ends without an error", "cycle")
            except InterpolationResolutionError:
                mon.ev("cycles_detected")
    mon.check(snap(c, ids=True) == before, "the failing reads changed the config", "changed")
    # break the ring anywhere: everything reads
    b = rng.randrange(n)
    OmegaConf.update(c, place(b), 9) if kinds[b] != "list" else c[f"k{b}"].__setitem__(0, 9)
    for t in targets:
        v = OmegaConf.select(c, t)
        mon.check(str(v).endswith("9"), f"after breaking the ring at {place(b)}, {t} reads as {v!r} in {raw(c)}", "repair")
        mon.ev("repairs_agreed")


def typed(mon, rng):
    """References whose target does not fit the declared type of the field."""
    g = G(rng)
    t = T.gen_prim(g)
    if rng.random() < 0.3:
        t = ("opt", t)
    sc = T.make_sc(g, [("a", t, T.NODEF), ("b", ("any",), None), ("ok", ("int",), 1)])
    c = OmegaConf.structured(sc.cls)
    c.a = rng.choice(["${b}", "${.b}", "${ocv_id:${b}}", "${[b]}"])
    for _ in range(3):
        v = T.odd_value(g)
        if isinstance(v, str) and ("${" in v or v == "???") or isinstance(v, (dict, list, tuple)):
            continue
        c.b = v
        try:
            want, bad = T.conv(t, v), False
        except T.Bad:
            want, bad = None, True
        mon.log("typed", T.show(t), raw(c)["a"], repr(v), "bad" if bad else "ok")
        before = snap(c, ids=True)
        try:
            got, exc = c.a, None
        except InterpolationValidationError as e:
            got, exc = None, e
        if bad:
            mon.check(exc is not None, f"{raw(c)['a']} to {v!r} in a {T.show(t)} field gives {got!r}", "validation")
            mon.ev("validation_errors_agreed")
        elif want is None and t[0] != "opt":
            pass
        else:
            mon.check(exc is None and c14.same(got, want), f"{raw(c)['a']} to {v!r} in a {T.show(t)} field gives {got!r} {exc!r:.200}", "validation")
            mon.ev("other_reads_agreed")
        mon.check(snap(c, ids=True) == before and c.ok == 1, "the read changed the config", "changed")


def case(rng, mon, i):
    x = rng.random()
    if x < 0.25:
        cycles(mon, rng)
        cycles(mon, rng)
        return
    if x < 0.45:
        for _ in range(4):
            typed(mon, rng)
        return
    w = W(rng, mon, dangling=rng.choice([0.1, 0.3]), calls=True, missing=0.12)
    broken = read_all(w, mon, rng)
    for _ in range(rng.randint(1, 5)):
        if broken and rng.random() < 0.7:
            repair(w, mon, rng, broken)
        else:
            w.step()
        broken = read_all(w, mon, rng)
