"""C14: an interpolation always reads the current value of what it points to."""
import copy
import enum
import pathlib
import pickle
import re
import warnings

from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.base import Container
from omegaconf.errors import InterpolationResolutionError, InterpolationValidationError, MissingMandatoryValue

from ocv import inter
from ocv import types_ as T
from ocv.gen import Color, G, same
from ocv.inter import Err, Nd
from ocv.snap import child, keys_of, raw, special

KEYS = ["a", "b", "c", "d", "e", "foo", "x1", "a-b", "$x", "1", "p+q", "é"]
CALLS = {"ocv_id": lambda x=None, *r: x, "ocv_join": lambda *a: "-".join(map(str, a)), "ocv_n": lambda *a: len(a)}


def setup(scratch):
    warnings.simplefilter("ignore")
    OmegaConf.clear_resolvers()
    for n, f in CALLS.items():
        OmegaConf.register_new_resolver(n, f)


def paths(t, p=()):
    out = [p] if p else []
    if type(t) is dict:
        for k, v in t.items():
            out += paths(v, p + (k,))
    elif type(t) is list:
        for k, v in enumerate(t):
            out += paths(v, p + (k,))
    return out


def unsure(t, p):
    for k in p:
        t = t[k]
    return type(t) is str and ("${" in t or t == "???") or t == ["@ref"]


class W:
    """A config of references under a random history."""

    def __init__(self, rng, mon, dangling=0.08, calls=True, missing=0.05):
        self.r, self.mon = rng, mon
        self.g = G(rng)
        self.trees = {}
        self.dangling, self.missing = dangling, missing
        self.calls = calls
        t = self.shape(rng.choice([2, 3]), rng.choice(["dict", "dict", "dict", "list"]))
        if type(t) is dict:
            t["sel"] = rng.choice(KEYS)
        self.put_refs(t, t, ())
        self.cfg = OmegaConf.create(t)
        mon.log("config", repr(t))

    def shape(self, depth, root=None):
        r = self.r
        root = root or r.choice(["leaf", "leaf", "leaf", "dict", "dict", "list"])
        if depth <= 0 or root == "leaf":
            if r.random() < self.missing:
                return "???"
            return ["@ref"] if r.random() < 0.55 else self.prim()
        if root == "dict":
            return {k: self.shape(depth - 1) for k in r.sample(KEYS, r.randint(1, 4))}
        return [self.shape(depth - 1) for _ in range(r.randint(0, 4))]

    def prim(self):
        v = self.g.prim()
        if isinstance(v, str) and ("${" in v or v == "???"):
            v = "s"
        return v

    def put_refs(self, t, root, p):
        items = t.items() if type(t) is dict else enumerate(t)
        for k, v in list(items):
            if v == ["@ref"]:
                t[k] = self.ref_text(root, p + (k,))
            elif type(v) in (dict, list):
                self.put_refs(v, root, p + (k,))

    def ref_text(self, tree, here):
        """An interpolation string for a node at path here, mostly to something that exists."""
        r = self.r
        ps = paths(tree)
        good = [p for p in ps if not unsure(tree, p)]

        def refs(rng):
            if not ps or rng.random() < self.dangling:
                keys = [rng.choice(KEYS + ["0", "zz"]) for _ in range(rng.randint(1, 3))]
                return rng.choice([0, 1, 2, 3]), keys
            target = rng.choice(good if good and rng.random() < 0.6 else ps)
            dots = 0
            if rng.random() < 0.45 and here:
                common = 0
                while common < min(len(here) - 1, len(target) - 1) and here[common] == target[common]:
                    common += 1
                # any base from the root down to the deepest common ancestor
                base = rng.randint(0, common)
                dots = len(here) - base
                target = target[base:]
            keys = [str(k) for k in target]
            if type(tree) is dict and "sel" in tree and rng.random() < 0.12 and not any(type(k) is int for k in target[-1:]):
                keys[-1] = ("${sel}", ("ref", 0, [(".", "sel")]))
            return dots, keys

        gen = inter.Gen(r, refs, resolvers=list(CALLS) if self.calls and r.random() < 0.25 else (), depth=r.choice([0, 1]))
        gen.refs = refs
        if r.random() < 0.6:
            text, tr = gen.ref(0)
            tr = ("text", [tr])
        elif gen.resolvers:
            text, tr = gen.text(1)
        else:
            parts, text, tr = r.randint(1, 3), "", []
            for n in range(parts):
                lit = r.choice(["", "a", " ", "x: ", "-", "\\", "$"])
                text += inter.esc_top(lit, True)
                if lit:
                    tr.append(lit)
                t1, a1 = gen.ref(0)
                text += t1
                tr.append(a1)
            tr = ("text", tr)
        self.trees[text] = tr
        return text

    # -- the oracle
    def env(self):
        return inter.Env(raw(self.cfg), self.trees, CALLS, node_str=lambda p: str(self.node(p)))

    def node(self, path):
        n = self.cfg
        for k in path:
            n = child(n, k)
        return n

    def plain(self, env, path, guard=()):
        """Expected to_container(resolve=True) of the node at path."""
        if path in guard:
            raise Err("cycle", path)
        t = env.raw(path)
        out = {} if type(t) is dict else []
        for k in t if type(t) is dict else range(len(t)):
            q = path + (k,)
            if env.raw(q) == "???":
                v = "???"
            else:
                v = env.value(q)
                if isinstance(v, Nd):
                    v = self.plain(env, v.path, guard + (path,))
            if type(t) is dict:
                out[k] = v
            else:
                out.append(v)
        return out

    # -- history
    def containers(self):
        out = []

        def go(n, p):
            if isinstance(n, Container) and not special(n):
                out.append((p, n))
                for k in keys_of(n):
                    go(child(n, k), p + (k,))

        go(self.cfg, ())
        return out

    def content(self, here, tree):
        r = self.r
        x = r.random()
        if x < 0.4:
            return self.ref_text(tree, here)
        if x < 0.8:
            return self.prim()
        if x < 0.84:
            return "???"
        v = self.shape(1, r.choice(["dict", "list"]))
        self.put_refs(v, tree, here)
        return v

    def step(self):
        r, mon = self.r, self.mon
        tree = raw(self.cfg)
        p, c = r.choice(self.containers())
        op = r.choice(["set", "set", "set", "del", "move", "merge", "copy", "update", "list", "list", "replace"])
        if isinstance(c, ListConfig) and op in ("set", "del", "move", "list"):
            n = len(c)
            k = r.choice(["append", "insert", "pop", "set", "reverse", "extend"])
            i = r.randint(0, n - 1) if n else 0
            v = self.content(p + (i,), tree)
            mon.log("at", repr(p), k, repr(i), repr(v))
            if k == "append":
                c.append(v)
            elif k == "insert":
                c.insert(i, v)
            elif k == "extend":
                c.extend([v, 1])
            elif k == "reverse":
                c.reverse()
            elif k == "pop" and n:
                del c[i]
            elif k == "set" and n:
                c[i] = v
        elif op in ("set", "list") and isinstance(c, DictConfig):
            k = r.choice(list(c.keys()) + KEYS)
            if not p and k == "sel":
                v = r.choice(KEYS)
            else:
                v = self.content(p + (k,), tree)
            mon.log("at", repr(p), "set", repr(k), repr(v))
            if r.random() < 0.5 and k.isidentifier():
                setattr(c, k, v)
            else:
                c[k] = v
        elif op == "del" and len(c):
            k = r.choice(list(c.keys()))
            mon.log("at", repr(p), "del", repr(k))
            del c[k]
        elif op == "move":
            # a subtree (with its relative references) appears somewhere else
            q, src = r.choice(self.containers())
            if q and isinstance(c, DictConfig):
                k = r.choice(KEYS)
                mon.log("at", repr(p), "set", repr(k), "from", repr(q))
                c[k] = src
        elif op == "merge":
            v = {r.choice(KEYS): None for _ in range(r.randint(1, 2))}
            if isinstance(self.cfg, DictConfig):
                for k in v:
                    v[k] = self.content((k,), tree)
                mon.log("merge", repr(v))
                self.try_bulk(lambda: OmegaConf.merge(self.cfg, v))
            else:
                v = [self.content((0,), tree)]
                mon.log("merge", repr(v))
                self.try_bulk(lambda: OmegaConf.merge(self.cfg, v))
        elif op == "update" and isinstance(self.cfg, DictConfig):
            q = [r.choice(KEYS) for _ in range(r.randint(1, 2))]
            v = self.content(tuple(q), tree)
            mon.log("update", ".".join(q), repr(v))

            def upd():
                c2 = copy.deepcopy(self.cfg)
                OmegaConf.update(c2, ".".join(q), v)
                return c2

            self.try_bulk(upd)
        elif op == "copy":
            k = r.choice(["deepcopy", "pickle", "copy", "merge"])
            mon.log(k)
            f = {"deepcopy": copy.deepcopy, "copy": copy.copy, "merge": OmegaConf.merge}
            self.cfg = pickle.loads(pickle.dumps(self.cfg)) if k == "pickle" else f[k](self.cfg)
        elif op == "replace" and p:
            q, src = r.choice(self.containers())
            v = raw(src)
            mon.log("replace", repr(p), "by the content of", repr(q))
            parent = self.node(p[:-1])
            parent[p[-1]] = v

    def try_bulk(self, f):
        try:
            self.cfg = f()
        except Exception as e:
            self.mon.log("  raised", type(e).__name__)


def matches(w, env, got, want):
    if isinstance(want, Nd):
        return got is w.node(want.path)
    if isinstance(got, Container):
        return False
    return same(got, want)


def attempt(f):
    try:
        return f(), None
    except (InterpolationResolutionError, MissingMandatoryValue) as e:
        return None, e


def check(w, mon, rng):
    """Every node, by every way of reading."""
    env = w.env()
    conts = w.containers()
    for p, c in conts:
        values, fails = {}, False
        for k in keys_of(c):
            q = p + (k,)
            text = env.raw(q)
            try:
                want, err = env.value(q), None
            except Err as e:
                want, err = None, e
            is_inter = type(text) is str and "${" in text
            if not is_inter and err is not None:
                fails = True
                continue  # a missing value: not this property
            ways = [("item", lambda: c[k])]
            if is_inter:
                if isinstance(c, DictConfig):
                    ways += [("get", lambda: c.get(k)), ("get default", lambda: c.get(k, 5)), ("attribute", lambda: getattr(c, k))]
                else:
                    ways += [("get", lambda: c.get(k)), ("negative", lambda: c[k - len(c)])]
                if isinstance(k, int) or k != "":
                    sel = "".join(f"[{x}]" for x in q)
                    ways.append(("select", lambda: OmegaConf.select(w.cfg, sel)))
                    ways.append(("select below", lambda: OmegaConf.select(c, str(k))))
                ways.append(("node", lambda: child(c, k)._dereference_node()))
                ways = rng.sample(ways, 3)
            for name, f in ways:
                got, exc = attempt(f)
                if err is not None:
                    if name.startswith("select") and exc is None and got is None and err.kind == "missing":
                        continue
                    mon.check(exc is not None, f"{q} = {text!r} read by {name} gives {got!r}, its target has {err.kind}", "unresolvable")
                    mon.ev("failures_agreed")
                    continue
                if exc is not None:
                    mon.fail(f"{q} = {text!r} read by {name} raises {exc!r:.300}, it denotes {want!r}", "resolve", config=raw(w.cfg))
                if name == "node":
                    got = got if isinstance(got, Container) else got._value()
                if name == "select" and isinstance(want, Nd):
                    pass
                mon.check(matches(w, env, got, want), f"{q} = {text!r} read by {name} gives {got!r}, it denotes {want!r}", "value", config=raw(w.cfg))
                if is_inter:
                    mon.ev("reads_agreed")
            values[k] = want
            fails = fails or err is not None
        # iteration
        if not fails:
            if isinstance(c, DictConfig):
                its = {"items": lambda: list(c.items()), "values": lambda: list(zip(c.keys(), c.values())), "items_ex": lambda: c.items_ex()}
                n = rng.choice(list(its))
                got = its[n]()
                ok = [k for k, _ in got] == list(values) and all(matches(w, env, v, values[k]) for k, v in got)
            else:
                n = "iteration"
                got = list(c)
                ok = len(got) == len(values) and all(matches(w, env, v, values[k]) for k, v in enumerate(got))
                ordered(w, mon, rng, p, c, list(values.values()))
            mon.check(ok, f"{n} of {p} gives {got!r}, expected {values!r}", "iteration")
            mon.ev("iterations_agreed")
    # conversion of the whole and of a part
    for p, c in [conts[0], rng.choice(conts)]:
        try:
            want, err = w.plain(env, p), None
        except Err as e:
            want, err = None, e
        if err is not None and err.kind == "cycle":
            continue
        got, exc = attempt(lambda: OmegaConf.to_container(c, resolve=True))
        if err is not None:
            mon.check(exc is not None, f"to_container(resolve) of {p} gives {got!r}, expected {err.kind}", "conversion")
        else:
            mon.check(exc is None, f"to_container(resolve) of {p} raises {exc!r:.300}, expected {want!r}", "conversion", config=raw(w.cfg))
            mon.check(same(got, want), f"to_container(resolve) of {p} gives {got!r}, expected {want!r}", "conversion", config=raw(w.cfg))
            mon.ev("conversions_agreed")


RELATIVE = re.compile(r"[{:,]\s*\.")


def ordered(w, mon, rng, p, c, values):
    """Membership and order of a list are those of the current values."""
    if not values or any(isinstance(v, (Nd, list, dict)) for v in values):
        return
    x = rng.choice(values)
    mon.check(x in c, f"{x!r} is no item of {p}: {values!r}", "iteration")
    if x == x:
        mon.check(c.index(x) == values.index(x) and c.count(x) == values.count(x), f"place of {x!r} in {p}: {values!r}", "iteration")
    key = rng.choice([None, str, repr])
    try:
        want = sorted(values, key=key)
    except TypeError:
        return
    c2 = copy.deepcopy(c)
    if any(n._is_interpolation() and (not p or RELATIVE.search(str(n._value()))) for n in (child(c, k) for k in range(len(c)))):
        return  # what refers to a neighbor changes by being moved
    c2.sort(key=key)
    got = [c2[k] for k in range(len(c2))]
    mon.check(same(got, want), f"{p} sorted by {key} gives {got!r}, expected {want!r}", "iteration", config=raw(w.cfg))
    mon.ev("sorts_agreed")


def through(w, mon, rng):
    """Paths that go through interpolations to containers."""
    env = w.env()
    for p, c in w.containers():
        for k in keys_of(c):
            q = p + (k,)
            text = env.raw(q)
            if not (type(text) is str and "${" in text):
                continue
            try:
                nd = env.value(q)
            except Err:
                continue
            if not isinstance(nd, Nd):
                continue
            t = env.raw(nd.path)
            for kk in list(t if type(t) is dict else range(len(t)))[:3]:
                try:
                    want = env.value(nd.path + (kk,))
                except Err:
                    continue
                got = c[k][kk]
                mon.check(matches(w, env, got, want), f"{q}[{kk!r}] through {text!r} gives {got!r}, it denotes {want!r}", "through")
                got = OmegaConf.select(w.cfg, "".join(f"[{x}]" for x in q + (kk,)))
                mon.check(matches(w, env, got, want), f"selecting {q}[{kk!r}] through {text!r} gives {got!r}, expected {want!r}", "through")
                mon.ev("through_reads")


def typed(rng, mon):
    """A typed field reads the target converted to its declared type."""
    T.reset()
    g = G(rng)
    types, names = [], ["a", "b", "c", "d", "e"]
    for _ in names:
        t = T.gen_prim(g)
        types.append(("opt", t) if rng.random() < 0.4 else t)
    src = {}
    for n, t in zip(names, types):
        x = rng.random()
        b = T.base(t)
        if x < 0.35:
            v = T.gen_value(t, g)
        elif x < 0.65:
            v = rng.choice([1, 0, True, False, 1.0, "1", "1.0", "true", "on", "RED", 3, "12", -0.0, 2, 1e3, None, b"x", "abc", pathlib.Path("a/b"), Color.RED])
        else:
            v = T.odd_value(g)
        if b[0] == "enum" and rng.random() < 0.5:
            m = rng.choice(list(b[1]))
            v = rng.choice([m.name, m.value, f"{b[1].__name__}.{m.name}", m])
        if not (v is None or isinstance(v, (bool, int, float, bytes, pathlib.Path, enum.Enum)) or type(v) is str and "${" not in v and v != "???"):
            v = 1
        src[n] = v
    form = rng.choice(["class", "class", "dict", "list"])
    texts = {n: rng.choice(["${src.%s}", "${src[%s]}", "${vals.${idx.%s}}"]) % n for n in names}
    if form == "class":
        sc = T.make_sc(g, [(n, t, texts[n]) for n, t in zip(names, types)])
        node = OmegaConf.structured(sc.cls)
    elif form == "dict":
        types = [types[0]] * len(names)
        node = DictConfig(dict(texts), key_type=str, element_type=T.hint(types[0]))
    else:
        types = [types[0]] * len(names)
        node = ListConfig([texts[n] for n in names], element_type=T.hint(types[0]))
    cfg = OmegaConf.create({"src": src, "idx": {n: str(i) for i, n in enumerate(names)}, "vals": list(src.values()), "t": {}})
    cfg.t = node
    c = cfg.t
    mon.log("typed", [T.show(t) for t in types], repr(src), form)
    for _ in range(3):
        for i, (n, t) in enumerate(zip(names, types)):
            k = i if form == "list" else n
            v = src[n]
            try:
                want, bad = T.conv(t, v), None
            except T.Bad as e:
                want, bad = None, e
            ways = {"item": lambda: c[k], "get": lambda: c.get(k), "select": lambda: OmegaConf.select(cfg, f"t[{k}]"),
                    "node": lambda: child(c, k)._dereference_node()._value(), "pointer": lambda: OmegaConf.create({"p": "${t[%s]}" % k, "t": c, "src": src, "idx": cfg.idx, "vals": cfg.vals}).p}  # fmt: skip
            if form != "list":
                ways["attribute"] = lambda: getattr(c, k)
            for name in rng.sample(sorted(ways), 3):
                got, exc = attempt(ways[name])
                what = f"field of type {T.show(t)} interpolating {v!r} read by {name}"
                if bad is not None:
                    mon.check(isinstance(exc, InterpolationValidationError), f"{what} gives {got!r} {exc!r:.200}, expected a validation error", "typed")
                    mon.ev("typed_rejections")
                else:
                    mon.check(exc is None, f"{what} raises {exc!r:.300}, expected {want!r}", "typed")
                    mon.check(same(got, want), f"{what} gives {got!r}, expected {want!r}", "typed")
                    mon.ev("typed_reads")
        # another value for one of the targets
        n = rng.choice(names)
        v = rng.choice([1, True, 1.0, "7", "no", None, "GREEN", T.gen_value(types[names.index(n)], g)])
        cfg.src[n] = src[n] = v
        cfg.vals[names.index(n)] = v


def chains(rng, mon):
    """Chains through containers that have the same keys, so that one reference text means several nodes."""
    names = ["v", "w", "x"]
    places = [()]
    for _ in range(rng.randint(2, 5)):
        base = rng.choice(places)
        if len(base) < 3:
            p = base + (rng.choice("ab"),)
            if p not in places:
                places.append(p)
    slots = [p + (n,) for p in places for n in names if rng.random() < 0.8]
    rng.shuffle(slots)
    tree, want = {}, {}

    def put(p, v):
        d = tree
        for k in p[:-1]:
            d = d.setdefault(k, {})
        d[p[-1]] = v

    for p in places[1:]:
        put(p + ("z",), 0)
    for n, p in enumerate(slots):
        if n == 0 or rng.random() < 0.15:
            want[p] = n
            put(p, n)
            continue
        q = slots[n - 1] if rng.random() < 0.7 else rng.choice(slots[:n])
        refs = [".".join(q)]
        for up in range(len(p)):
            above = p[: len(p) - 1 - up]
            if q[: len(above)] == above:
                refs.append("." * (up + 1) + ".".join(q[len(above):]))
        ref = rng.choice(refs[1:] or refs) if rng.random() < 0.8 else refs[0]
        if rng.random() < 0.2:
            want[p] = f"<{want[q]}>"
            put(p, "<${" + ref + "}>")
        else:
            want[p] = want[q]
            put(p, "${" + ref + "}")
    mon.log("chains", tree)
    cfg = OmegaConf.create(tree)
    rng.shuffle(slots)
    for p in slots:
        for how in ("item", "select"):
            try:
                got = cfg if how == "item" else OmegaConf.select(cfg, ".".join(p))
                for k in p if how == "item" else ():
                    got = got[k]
            except Exception as e:  # noqa: BLE001
                mon.check(False, f"{how} of {'.'.join(p)} raised {type(e).__name__}: {e}; it refers to {want[p]!r}", "chain")
                continue
            mon.check(type(got) is type(want[p]) and got == want[p], f"{how} of {'.'.join(p)} is {got!r}, it refers to {want[p]!r}", "chain")
        mon.ev("values_compared")
    plain = OmegaConf.to_container(cfg, resolve=True)
    for p in slots:
        got = plain
        for k in p:
            got = got[k]
        mon.check(got == want[p], f"to_container gives {got!r} at {'.'.join(p)}, it refers to {want[p]!r}", "chain")
    mon.ev("chains_checked")


def case(rng, mon, i):
    if i % 2 == 0:
        chains(rng, mon)
    if rng.random() < 0.15:
        return typed(rng, mon)
    w = W(rng, mon)
    check(w, mon, rng)
    for _ in range(rng.randint(2, 7)):
        w.step()
        check(w, mon, rng)
        through(w, mon, rng)
