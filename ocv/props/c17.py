"""C17: resolvers receive the evaluated arguments and are called the promised number of times."""
import copy
import functools
import os
import pickle
import warnings

from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.base import Container, Node
from omegaconf.errors import InterpolationResolutionError, UnsupportedInterpolationType

from ocv import inter
from ocv.gen import same
from ocv.inter import Err, Nd
from ocv.props import c14
from ocv.snap import child, keys_of, raw

CASE_CPU_LIMIT = 120.0
BUILTIN = ["oc.create", "oc.decode", "oc.deprecated", "oc.dict.keys", "oc.dict.values", "oc.env", "oc.select"]
NAMES = ["ocv_a", "ocv_b", "ocv_c", "ns.ocv", "ns.sub.ocv2", "_x1"]
ALL = NAMES + ["ocv_unknown", "ns", "ns.other"]


def setup(scratch):
    warnings.simplefilter("ignore")
    OmegaConf.clear_resolvers()


CLOSE = [
    ("1", 1), ("'1'", "1"), ('"1"', "1"), ("1.0", 1.0), ("true", True), ("'true'", "true"), ("True", True), ("null", None), ("'null'", "null"),
    ("a", "a"), ("'a'", "a"), ('"a"', "a"), ("A", "A"), ("' a'", " a"), ("'a '", "a "), ("''", ""), ("'1,1'", "1,1"), ("'a, a'", "a, a"), ("0", 0), ("false", False), ("-0", 0), ("0.0", 0.0),
    ("'[]'", "[]"), ("'{}'", "{}"), ("1e0", 1.0), ("'1.0'", "1.0"), ("1_0", 10), ("10", 10),
]  # fmt: skip


def bare(t):
    return t.strip("'\"").strip().lower()


class Tool:
    """A resolver and its specification."""

    def __init__(self, uid, rng, world):
        self.uid = uid
        self.result = rng.choice(["str", "str", "int", "none", "some", "list", "dict", "raise", "literal", "args", "nested", "container"])
        self.cache = rng.random() < 0.4
        self.special = []
        if not self.cache and rng.random() < 0.6:
            self.special = sorted(rng.sample(["_parent_", "_node_", "_root_"], rng.randint(1, 3)))
        elif self.cache and self.result in ("container", "nested"):
            self.result = "str"
        self.style = rng.choice(["function", "lambda", "object", "method", "partial"])
        self.world = world
        self.fn = self.make()

    def run(self, *args, **kw):
        w = self.world
        w.seen.append((self.uid, list(args), dict(kw)))
        if self.result == "container":
            return w.cfg["plain"]
        if self.result == "nested":
            return ("n", w.cfg["hook"])
        w.n += 1
        return self.value(w.n, args)

    def value(self, n, args):
        k = self.result
        if k == "raise":
            raise Err("resolver")
        if k == "args":
            return len(args)
        if k == "some":
            return [None, f"{self.uid}#{n}", 0, "", False, None, n][n % 7]
        return {
            "str": f"{self.uid}#{n}", "int": n, "none": None, "list": [n, ["x", None]], "dict": {"n": n, "m": [1.5]},
            "literal": "${plain} \\${" + str(n),
        }[k]  # fmt: skip

    def make(self):
        run = self.run
        names = self.special
        sig = ", ".join(["*a", *(n for n in names)])
        kw = ", ".join(f"{n}={n}" for n in names)
        env = {"run": run}
        if self.style == "lambda":
            return eval(f"lambda {sig}: run(*a, {kw})", env)
        if self.style == "object":
            exec(f"class O:\n    def __call__(self, {sig}):\n        return run(*a, {kw})", env)
            return env["O"]()
        if self.style == "method":
            exec(f"class O:\n    def go(self, {sig}):\n        return run(*a, {kw})", env)
            return env["O"]().go
        exec(f"def f(tag, {sig}):\n    return run(*a, {kw})\ndef g({sig}):\n    return run(*a, {kw})", env)
        if self.style == "partial":
            return functools.partial(env["f"], "tag")
        return env["g"]


class RecEnv(inter.Env):
    def call(self, name, args, texts, here):
        w = self.w
        tool = w.reg.get(name)
        if tool is None:
            raise Err("name", name)
        key = tuple(texts)
        if tool.cache:
            if any(k != key and list(map(bare, k)) == list(map(bare, key)) for k in w.cache.get(name, ())):
                w.mon.ev("close_arguments_told_apart")
            try:
                return w.cache[name][key]
            except KeyError:
                pass
        w.expected.append((tool.uid, args, here, tool.special))
        if tool.result == "container":
            if here[:1] == ("plain",):
                raise AssertionError
            return Nd(("plain",))
        if tool.result == "nested":
            return ("n", self.value(("hook",)))
        w.m += 1
        out = tool.value(w.m, args)
        if tool.cache:
            w.cache.setdefault(name, {})[key] = out
        return out


class W(c14.W):
    def __init__(self, rng, mon):
        self.seen, self.expected, self.reg, self.cache = [], [], {}, {}
        self.n = self.m = 0
        self.uids = 0
        OmegaConf.clear_resolvers()
        self.r, self.mon = rng, mon
        for name in rng.sample(NAMES, rng.randint(2, len(NAMES))):
            self.register(name, False)
        super().__init__(rng, mon, dangling=0.05, calls=True, missing=0.03)
        if isinstance(self.cfg, ListConfig):
            self.cfg = OmegaConf.create({"l": self.cfg})
        self.plain_content = {"a": 1, "b": [None, "x"]}
        self.cfg["plain"] = self.plain_content
        t = rng.choice([5, "text", "call"])
        if t == "call":
            t, tr = inter.Gen(rng, None, resolvers=["ocv_hook"], depth=1).call(1)
            self.trees[t] = ("text", [tr])
        self.cfg["hook"] = t
        if rng.random() < 0.35:
            for k in "pqrst"[: rng.randint(2, 5)]:
                self.cfg["close_" + k] = self.close_call()
        tool = Tool("hook", rng, self)
        tool.result, tool.cache, tool.special = "str", False, []
        tool.style = "lambda"
        tool.fn = tool.make()
        OmegaConf.register_new_resolver("ocv_hook", tool.fn)
        self.reg["ocv_hook"] = tool

    def register(self, name, replace):
        self.uids += 1
        tool = Tool(f"t{self.uids}", self.r, self)
        self.mon.log("register", name, tool.uid, tool.result, "cached" if tool.cache else "", *tool.special)
        OmegaConf.register_new_resolver(name, tool.fn, replace=replace, use_cache=tool.cache)
        self.reg[name] = tool

    def ref_text(self, tree, here):
        r = self.r
        if r.random() < 0.3:
            return super().ref_text(tree, here)
        ps = [p for p in c14.paths(tree)]

        def refs(rng):
            if rng.random() < 0.5 or not ps:
                return 0, rng.choice([["plain", "a"], ["plain", "b"], ["plain"], ["hook"]])
            return 0, [str(k) for k in rng.choice(ps)]

        gen = inter.Gen(r, refs, resolvers=NAMES if r.random() < 0.9 else ALL, depth=2)
        if r.random() < 0.3:
            return self.close_call()
        if r.random() < 0.7:
            text, tr = gen.call(r.choice([1, 2]))
            tr = ("text", [tr])
        else:
            text, tr = gen.text(2)
        self.trees[text] = tr
        return text

    def close_call(self):
        """A call whose arguments are told apart from those of another by little."""
        r = self.r
        last = getattr(self, "last_close", None)
        if last and r.random() < 0.8:
            name, args = last[0], list(last[1])  # the same call but for one argument
            at = r.randrange(len(args))
            x = r.random()
            if x < 0.15 and len(args) > 1:
                args.pop()
            elif x < 0.35:
                args.append(r.choice(CLOSE))
            else:
                args[at] = r.choice([x for x in CLOSE if bare(x[0]) == bare(args[at][0])] if r.random() < 0.8 else CLOSE)
        else:
            name = r.choice([n for n in NAMES if n in self.reg and self.reg[n].cache] or NAMES)
            args = [r.choice(CLOSE) for _ in range(r.choice([1, 1, 1, 2]))]
        self.last_close = name, args
        text = "${" + name + ":" + r.choice([",", ", "]).join(t for t, _ in args) + "}"
        self.trees[text] = ("text", [("call", [name], [(("val", v), t) for t, v in args])])
        return text

    def env(self):
        e = RecEnv(raw(self.cfg), self.trees, None, node_str=lambda p: str(self.node(p)))
        e.w = self
        return e

    def reset(self):
        self.seen, self.expected = [], []
        self.m = self.n

    def sync_cache(self):
        self.cache = {k: dict(v) for k, v in OmegaConf.get_cache(self.cfg).items() if v}

    def settled(self):
        """plain and hook are what the model takes them for."""
        return raw(self.cfg).get("plain") == self.plain_content and "hook" in list(self.cfg.keys())


def same_arg(w, got, want):
    if isinstance(want, Nd):
        return got is w.node(want.path)
    if isinstance(got, Node):
        return False
    if type(want) is list:
        return type(got) is list and len(got) == len(want) and all(same_arg(w, a, b) for a, b in zip(got, want))
    if type(want) is dict:
        return type(got) is dict and list(got) == list(want) and all(same_arg(w, got[k], want[k]) for k in want)
    if type(want) is tuple:
        return type(got) is tuple and all(same_arg(w, a, b) for a, b in zip(got, want))
    return same(got, want)


def compare_logs(w, mon, what):
    ok = len(w.seen) == len(w.expected)
    mon.check(
        ok, f"{what}: {len(w.seen)} resolver calls {[s[0] for s in w.seen]}, expected {len(w.expected)}: {[s[0] for s in w.expected]}", "calls",
        config=raw(w.cfg), seen=[s[:2] for s in w.seen], expected=w.expected,
    )  # fmt: skip
    for (uid, args, kw), (xu, xa, here, special) in zip(w.seen, w.expected):
        mon.check(uid == xu, f"{what}: resolver {uid} is called, expected {xu}", "calls")
        mon.check(same_arg(w, args, xa), f"{what}: resolver {uid} gets {args!r}, expected {xa!r}", "arguments")
        mon.check(sorted(kw) == special, f"{what}: resolver {uid} gets {sorted(kw)}, expected {special}", "specials")
        node = w.node(here)
        for k, v in kw.items():
            x = {"_root_": w.cfg, "_parent_": node._get_parent(), "_node_": node}[k]
            mon.check(v is x, f"{what}: resolver {uid} gets {k}={v!r}, not the {k} of the node at {here}", "specials")
            mon.ev("specials_agreed")
        mon.ev("calls_agreed")
        if xa:
            mon.ev("arguments_agreed", len(xa))
    if not w.seen:
        mon.ev("no_call_agreed")


def read(w, mon, rng, limit=10):
    env = w.env()
    todo = []
    for p, c in w.containers():
        for k in keys_of(c):
            if type(env.raw(p + (k,))) is str and "${" in env.raw(p + (k,)):
                todo.append((p, c, k))
    rng.shuffle(todo)
    for p, c, k in todo[:limit]:
        q = p + (k,)
        text = env.raw(q)
        sel = "".join(f"[{x}]" for x in q)
        ways = {"item": lambda: c[k], "get": lambda: c.get(k), "select": lambda: OmegaConf.select(w.cfg, sel), "node": lambda: child(c, k)._dereference_node()}
        if isinstance(c, DictConfig):
            ways["attribute"] = lambda: getattr(c, k)
            ways["default"] = lambda: c.get(k, 7)
            ways["items_ex"] = lambda: dict(c.items_ex(keys=[k]))[k] if len(c) == 1 else c[k]
        for how in rng.sample(list(ways), 2):
            w.reset()
            try:
                want, err = w.env().value(q), None
            except Err as e:
                want, err = None, e
            try:
                got, exc = ways[how](), None
            except (InterpolationResolutionError, UnsupportedInterpolationType) as e:
                got, exc = None, e
            what = f"{q} = {text!r} read by {how}"
            mon.log(what)
            if err is not None:
                mon.check(exc is not None or (how == "select" and err.kind == "missing"), f"{what} gives {got!r}, expected {err.kind}", "no error")
            else:
                mon.check(exc is None, f"{what} raises {exc!r:.300}, expected {want!r}", "resolve")
                if how == "node":
                    got = got if isinstance(got, Container) else got._value()
                mon.check(same_arg(w, got, want), f"{what} gives {got!r}, expected {want!r}", "value", config=raw(w.cfg))
                mon.ev("values_agreed")
            if err is not None and err.kind == "cycle":
                # how often a cycle is followed before it is detected is not promised
                OmegaConf.clear_cache(w.cfg)
                w.cache = {}
                continue
            compare_logs(w, mon, what)
            mon.check(w.n == w.m, f"{what}: model out of step", "model")
    # quiet operations call nothing
    w.reset()
    repr(w.cfg), OmegaConf.to_yaml(w.cfg), OmegaConf.to_container(w.cfg), copy.deepcopy(w.cfg), len(w.cfg), list(w.cfg.keys())
    for p, c, k in todo[:2]:
        OmegaConf.is_interpolation(c, k), OmegaConf.is_missing(c, k), c.keys() if isinstance(c, DictConfig) else None
    mon.check(not w.seen, f"an operation that does not resolve called {w.seen}", "calls")


def convert(w, mon, rng):
    """Conversions: each interpolation is resolved once."""
    w.reset()
    before = (w.m, copy.deepcopy(w.cache))
    try:
        want = w.plain(w.env(), ())
    except Err:
        w.m, w.cache = before
        OmegaConf.clear_cache(w.cfg)
        w.cache = {}
        return
    got = OmegaConf.to_container(w.cfg, resolve=True)
    mon.check(same_arg(w, got, want), f"to_container(resolve) gives {got!r}, expected {want!r}", "conversion", config=raw(w.cfg))
    compare_logs(w, mon, "to_container(resolve)")
    mon.ev("conversions_agreed")


def dump(cache):
    """The cached results of each resolver, whatever the cache is keyed by."""
    return {k: sorted(map(show_result, v.values())) for k, v in cache.items() if v}


def show_result(v):
    return repr(raw(v) if isinstance(v, Container) else v)


def frozen(cfg):
    return {k: dict(v) for k, v in OmegaConf.get_cache(cfg).items() if v}


def cache_ops(w, mon, rng):
    op = rng.choice(["clear", "copy_to", "set", "get", "deepcopy", "pickle", "other"])
    mon.log("cache", op)
    have = dump(OmegaConf.get_cache(w.cfg))
    mon.check(have == dump(w.cache), f"the cache holds the results {have}, expected {dump(w.cache)}", "cache")
    mon.ev("caches_agreed")
    if op == "clear":
        OmegaConf.clear_cache(w.cfg)
        w.cache = {}
    elif op in ("deepcopy", "pickle"):
        old = w.cfg
        w.cfg = copy.deepcopy(old) if op == "deepcopy" else pickle.loads(pickle.dumps(old))
        OmegaConf.clear_cache(old)
    elif op == "other":
        # reading a copy does not fill the cache of the original
        old, oldcache, then = w.cfg, copy.deepcopy(w.cache), frozen(w.cfg)
        w.cfg = copy.deepcopy(old)
        read(w, mon, rng, 4)
        w.cfg, w.cache = old, oldcache
        now = frozen(old)
        mon.check(now == then, f"using a copy changed the cache to {now}, it was {then}", "cache")
    elif op in ("copy_to", "set"):
        other = OmegaConf.create(copy.deepcopy(raw(w.cfg)))
        if op == "set":
            OmegaConf.set_cache(other, OmegaConf.get_cache(w.cfg))
        else:
            OmegaConf.copy_cache(w.cfg, other)
        old, oldcache, then = w.cfg, copy.deepcopy(w.cache), frozen(w.cfg)
        w.cfg = other
        w.cache = copy.deepcopy(w.cache)
        read(w, mon, rng, 4)
        now = frozen(old)
        mon.check(now == then, f"using the target of {op} changed the cache of its source to {now}, it was {then}", "cache")
        mine = frozen(w.cfg)
        if rng.random() < 0.5:
            OmegaConf.clear_cache(old)
            mon.check(frozen(w.cfg) == mine, "clearing the source of a copied cache changed the copy", "cache")
        else:
            OmegaConf.clear_cache(w.cfg)
            mon.check(frozen(old) == then, "clearing a copied cache changed its source", "cache")
            w.cfg, w.cache = old, oldcache


def registry(w, mon, rng):
    name = rng.choice(NAMES)
    op = rng.choice(["register", "replace", "clear one", "clear all", "bad"])
    mon.log("registry", op, name)
    if op == "register":
        if name in w.reg:
            try:
                OmegaConf.register_new_resolver(name, lambda: "usurper", use_cache=rng.random() < 0.5)
                mon.fail(f"registering {name} twice is accepted", "duplicate")
            except ValueError:
                mon.ev("refusals_agreed")
        else:
            w.register(name, False)
    elif op == "replace":
        w.register(name, True)
    elif op == "clear one":
        if rng.random() < 0.2:
            name = rng.choice(["ocv_none", "oc", ""])
        got = OmegaConf.clear_resolver(name)
        mon.check(got is (name in w.reg), f"clear_resolver({name!r}) gives {got!r}", "clear")
        w.reg.pop(name, None)
    elif op == "clear all":
        gone = rng.choice(BUILTIN)
        if rng.random() < 0.5:
            mon.check(OmegaConf.clear_resolver(gone) is True and not OmegaConf.has_resolver(gone), f"{gone} is not cleared", "clear")
        if rng.random() < 0.3:
            OmegaConf.register_new_resolver("oc.env", lambda *a: "hijacked", replace=True)
        OmegaConf.clear_resolvers()
        hook = w.reg["ocv_hook"]
        w.reg = {}
        for n in BUILTIN:
            mon.check(OmegaConf.has_resolver(n), f"{n} is gone after clear_resolvers", "clear")
        os.environ["OCV_HERE"] = "here"
        mon.check(OmegaConf.create({"a": "${oc.env:OCV_HERE}"}).a == "here", "oc.env is not restored", "clear")
        for n in ALL:
            mon.check(not OmegaConf.has_resolver(n), f"{n} survives clear_resolvers", "clear")
        mon.check(not OmegaConf.has_resolver("ocv_hook"), "ocv_hook survives clear_resolvers", "clear")
        OmegaConf.register_new_resolver("ocv_hook", hook.fn)
        w.reg["ocv_hook"] = hook
    else:
        bad = rng.choice(["empty", "uncallable", "special cached", "special cached", "replace special"])
        try:
            if bad == "empty":
                OmegaConf.register_new_resolver("", lambda: 1, replace=True)
            elif bad == "uncallable":
                OmegaConf.register_new_resolver(name, rng.choice([None, 3, "x"]), replace=True)
            else:
                s = rng.choice(["_parent_", "_node_", "_root_"])
                OmegaConf.register_new_resolver(name, eval(f"lambda *a, {s}: 1"), use_cache=True, replace=True)
            mon.fail(f"registration of a bad resolver ({bad}) is accepted", "registration")
        except (ValueError, TypeError):
            mon.ev("refusals_agreed")
    for n in NAMES:
        mon.check(OmegaConf.has_resolver(n) is (n in w.reg), f"has_resolver({n}) is {OmegaConf.has_resolver(n)} after {op} {name}", "has_resolver")
    mon.ev("registries_agreed")


def history(rng, mon):
    w = W(rng, mon)
    read(w, mon, rng)
    for _ in range(rng.randint(3, 8)):
        x = rng.random()
        if x < 0.4:
            w.reset()
            old = {k: dict(v) for k, v in OmegaConf.get_cache(w.cfg).items() if v}
            w.step()
            if w.seen or not same_keys(old, w.cfg):
                OmegaConf.clear_cache(w.cfg)
                w.cache = {}
            if not w.settled():
                return
        elif x < 0.7:
            cache_ops(w, mon, rng)
        else:
            registry(w, mon, rng)
        read(w, mon, rng, rng.choice([2, 4, 8]))
        if rng.random() < 0.4:
            convert(w, mon, rng)


def same_keys(old, cfg):
    return {k: set(v) for k, v in old.items()} == {k: set(v) for k, v in OmegaConf.get_cache(cfg).items() if v}


def case(rng, mon, i):
    history(rng, mon)
