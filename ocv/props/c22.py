"""C22: equality of configs is a value comparison."""
import copy
import time
import warnings
from collections import OrderedDict

from omegaconf import DictConfig, ListConfig, OmegaConf, SCMode
from omegaconf.base import Container, UnionNode
from omegaconf.errors import OmegaConfBaseException

from ocv import types_ as T
from ocv.gen import G, clone, walk
from ocv.props import c14, c20
from ocv.props.c21 import Deep, Model
from ocv.snap import child, containers, keys_of, nodes, raw, snap, special
from ocv.world import World

CASE_CPU_LIMIT = 120.0
setup = c20.setup


class Mark:
    """A missing value, or the text of an interpolation that cannot be resolved."""

    def __init__(self, text):
        self.text = text

    def __eq__(self, o):
        return isinstance(o, Mark) and o.text == self.text

    def __hash__(self):
        return hash(self.text)

    def __repr__(self):
        return f"<{self.text}>"


class Ref:
    """An interpolation: its value, or its text as long as a side does not resolve."""

    def __init__(self, text, ok, value):
        self.text, self.ok, self.value = text, ok, value

    def __eq__(self, o):
        if isinstance(o, Ref):
            return self.value == o.value if self.ok and o.ok else self.text == o.text
        return self.ok and self.value == o

    def __repr__(self):
        return f"<{self.text} = {self.value!r}>" if self.ok else f"<{self.text}>"


class Value(Model):
    """The value of a config: plain content, resolvable interpolations resolved."""

    def __init__(self):
        Model.__init__(self, True, False, False, SCMode.DICT)

    def missing(self):
        return Mark("???")

    def item(self, c, k):
        n = child(c, k)
        self.errors.clear()
        inter = n._is_interpolation()
        v = Model.item(self, c, k)
        if inter:
            ok = not self.errors
            self.errors.clear()
            return Ref(raw(n), ok, v if ok else None)
        return v


def value(o):
    if isinstance(o, Container):
        if o._is_none():
            return None
        if o._is_missing():
            return Mark("???")
        return Value().container(o)
    if isinstance(o, (dict, list, tuple)) or isinstance(o, type) or type(o) in T.BY_CLS:
        return value(OmegaConf.create(o))
    return o


def shuffled(rng, t):
    """Other order of keys."""
    if type(t) is dict:
        ks = list(t)
        rng.shuffle(ks)
        return {k: shuffled(rng, t[k]) for k in ks}
    if type(t) is list:
        return [shuffled(rng, x) for x in t]
    return t


def tuples(rng, t):
    if isinstance(t, dict):
        return (OrderedDict if rng.random() < 0.2 else dict)((k, tuples(rng, v)) for k, v in t.items())
    if isinstance(t, list):
        x = [tuples(rng, v) for v in t]
        return tuple(x) if rng.random() < 0.5 else x
    return t


def tweak(rng, g, t):
    """One small change somewhere; may also be no change of the value."""
    ps = [p for p, _ in walk(t) if p]
    if not ps:
        return {"a": 1} if type(t) is dict else [None]
    p = rng.choice(ps)
    c = t
    for k in p[:-1]:
        c = c[k]
    k, v = p[-1], c[p[-1]]
    how = rng.choice(["value", "value", "none", "missing", "drop", "add", "retype", "swap", "inter", "wrap", "rename", "empty"])
    if how == "value":
        c[k] = g.prim()
    elif how == "none":
        c[k] = None
    elif how == "missing":
        c[k] = "???"
    elif how == "drop":
        del c[k]
    elif how == "add":
        if type(c) is dict:
            c[g.key()] = g.prim()
        else:
            c.insert(k, g.prim())
    elif how == "retype":
        if type(v) is bool:
            c[k] = rng.choice([int(v), str(v)])
        elif type(v) is int:
            c[k] = rng.choice([float(v) if abs(v) < 2**52 else v, str(v), bool(v)])
        elif type(v) is float:
            c[k] = rng.choice([str(v), int(v) if abs(v) < 2**52 else v])
        elif type(v) is dict:
            c[k] = list(v.values())
        elif type(v) is list:
            c[k] = {str(i): x for i, x in enumerate(v)}
        else:
            c[k] = str(v)
    elif how == "swap" and type(c) is list and len(c) > 1:
        i = rng.randrange(len(c))
        c[i], c[k] = c[k], c[i]
    elif how == "inter":
        c[k] = rng.choice(["${nope}", "${.a}", "${nope2}", "${oc.env:OCV_NOPE}", "${oc.env:OCV_NOPE,null}", "${ocv_id:1}", "${", "a${nope}", "${.nope}"])
    elif how == "wrap":
        c[k] = rng.choice([[v], {"a": v}])
    elif how == "rename" and type(c) is dict:
        del c[k]
        c[g.key()] = v
    elif how == "empty":
        c[k] = rng.choice([{}, [], "", 0, False])
    return t


def by_reference(rng, t):
    """The same value, part of it by reference."""
    ps = [p for p, v in walk(t) if p and all(isinstance(k, str) and k.isidentifier() or type(k) is int for k in p) and "${" not in repr(v)]
    if type(t) is not dict or not ps or "zz" in t:
        return None
    p = rng.choice(ps)
    c = t
    for k in p[:-1]:
        c = c[k]
    v = c[p[-1]]
    if type(v) is str and v == "???":
        return None
    holder = {"zz": clone(v), "t": t}
    c[p[-1]] = "${zz}"
    return OmegaConf.create(holder)["t"]


def pool(rng, mon, g):
    w, cfg = c20.build(rng, mon)
    out = [("config", cfg)]
    cs = [(p, n) for p, n in containers(cfg) if not special(n)]
    if not cs:
        return out
    path, base = rng.choice(cs) if rng.random() < 0.4 else ((), cfg)
    if special(base):
        return out
    if path:
        out.append((f"node at {path}", base))
    plain = raw(base)
    if "nan" in repr(plain):
        return out
    for _ in range(rng.randint(3, 6)):
        x = rng.random()
        t = clone(plain)
        tag = ""
        if x < 0.55:
            t = tweak(rng, g, t)
            tag = "tweaked "
        if rng.random() < 0.5:
            t = shuffled(rng, t)
        kind = rng.choice(["plain", "plain", "create", "create", "copy", "ref", "typed", "resolved", "object", "node", "flags", "held"])
        try:
            if kind == "plain":
                out.append((tag + "plain", tuples(rng, t)))
            elif kind == "create":
                out.append((tag + "created", OmegaConf.create(t)))
            elif kind == "copy":
                c = copy.deepcopy(base)
                out.append(("copy", c))
            elif kind == "ref":
                c = by_reference(rng, t)
                if c is not None:
                    out.append((tag + "by reference", c))
            elif kind == "typed" and w is not None:
                h = T.hint(w.t) if not path else None
                if w.t[0] == "sc" and not path:
                    if type(t) is dict:
                        c = OmegaConf.merge(OmegaConf.structured(w.t[1].cls), t)
                        out.append((tag + "structured", c))
                        if rng.random() < 0.3:
                            out.append(("class", w.t[1].cls))
                elif w.t[0] == "list" and not path:
                    out.append((tag + "typed", ListConfig(t, element_type=T.hint(w.t[1]))))
                elif w.t[0] == "dict" and not path:
                    out.append((tag + "typed", DictConfig(t, key_type=T.hint(w.t[1]), element_type=T.hint(w.t[2]))))
            elif kind == "resolved":
                out.append(("resolved", OmegaConf.to_container(base, resolve=True)))
            elif kind == "object":
                out.append(("object", OmegaConf.to_object(base)))
            elif kind == "node":
                c = rng.choice(cs)
                out.append((f"node at {c[0]}", c[1]))
            elif kind == "flags":
                c = OmegaConf.create(t)
                for _, n in containers(c):
                    if rng.random() < 0.5:
                        n._set_flag(rng.choice(["readonly", "struct"]), rng.random() < 0.7)
                out.append((tag + "flags", c))
            elif kind == "held":
                c = OmegaConf.create({"x": [OmegaConf.create(t)], "a": 1})
                out.append((tag + "held", c["x"][0]))
        except RecursionError:
            pass
        except (OmegaConfBaseException, ValueError, TypeError):
            pass
    return out


def state(o):
    if isinstance(o, Container):
        n = o
        while n._get_parent() is not None:
            n = n._get_parent()
        return snap(n, ids=True)
    return repr(o)


def special_roots(rng, mon):
    """None, missing and unresolvable containers."""
    g = G(rng)
    mk = {
        "None": lambda c: c(None),
        "???": lambda c: c("???"),
        "empty": lambda c: c({} if c is DictConfig else []),
        "full": lambda c: c({"a": 1} if c is DictConfig else [1]),
        "${a}": lambda c: c("${a}"),
        "${b}": lambda c: c("${b}"),
    }
    c = rng.choice([DictConfig, ListConfig])
    n1, n2 = rng.choice(list(mk)), rng.choice(list(mk))
    a, b = mk[n1](c), mk[n2](c)
    mon.log(c.__name__, n1, n2)
    want = n1 == n2
    pairs = [("", a, b)]
    pairs.append(("in a dict: ", OmegaConf.create({"x": a}), OmegaConf.create({"x": b})))
    pairs.append(("in a list: ", OmegaConf.create([a]), OmegaConf.create([b])))
    for what, x, y in pairs:
        if n1[0] == "$" or n2[0] == "$":
            # in these there is neither a nor b
            pass
        for l, r in ((x, y), (y, x)):
            got = l == r
            mon.check(got is want, f"{what}{c.__name__} {n1} == {n2} is {got}", "special")
            mon.check((l != r) is not want, f"{what}{c.__name__} {n1} != {n2} is {l != r}", "special")
    other = rng.choice([1, "x", 1.5, b"a", g.path_(), object(), (9,), {"q": 2}, [3], {(1,): 2}, {1, 2}, {"a": object()}])
    for l, r in ((a, other), (other, a)):
        mon.check((l == r) is False, f"{c.__name__} {n1} == {other!r}", "other")
        mon.check((l != r) is True, f"{c.__name__} {n1} != {other!r} is false", "other")
    for v, k in ((None, "None"), ("???", "???")):
        if n1[0] == "$":
            continue
        for l, r in ((a, v), (v, a)):
            mon.check((l == r) is (n1 == k), f"{c.__name__} {n1} == {v!r} is {l == r}", "special")
    mon.ev("special_pairs")


def leaves(rng, mon):
    """One value against another, in all kinds of nodes."""
    g = G(rng)
    t = T.gen_type(g, 1, ())
    v1 = T.gen_value(t, g, special=0.1)
    v2 = clone(v1) if rng.random() < 0.5 else T.gen_value(t, g, special=0.1)
    a = [OmegaConf.create({"k": v1}), DictConfig({"k": v1}, element_type=T.hint(t)), {"k": v1}]
    b = [OmegaConf.create({"k": v2}), DictConfig({"k": v2}, element_type=T.hint(t)), {"k": v2}]
    if "${" not in repr((v1, v2)):
        a.append(OmegaConf.create({"r": v1, "m": {"k": "${r}"}})["m"] if v1 != "???" else a[0])
        b.append(OmegaConf.create({"r": v2, "m": {"k": "${r}"}})["m"] if v2 != "???" else b[0])
    mon.log("leaf", T.show(t), repr(v1), repr(v2))
    want = v1 == v2
    if "nan" in repr((v1, v2)):
        return
    for x in a:
        for y in b:
            if type(x) is dict and type(y) is dict:
                continue
            mon.check((x == y) is want and (y == x) is want, f"{x!r} ({type(x).__name__}) == {y!r} ({type(y).__name__}) is {x == y} / {y == x}", "leaf")
            mon.check((x != y) is not want, f"{x!r} != {y!r} is {x != y}", "leaf")
    mon.ev("leaf_pairs")


def case(rng, mon, i):
    T.reset()
    x = rng.random()
    if x < 0.15:
        return special_roots(rng, mon)
    if x < 0.35:
        return leaves(rng, mon)
    g = G(rng)
    ps = pool(rng, mon, g)
    vals = []
    for name, o in ps:
        mon.log(name, o)
        try:
            t0 = time.process_time()
            vals.append(value(o))
            if time.process_time() - t0 > 0.1:
                mon.stat("too_slow")  # texts that contain each other over and over
                return
        except (Deep, RecursionError):
            mon.stat("cyclic")
            return
        except OmegaConfBaseException:
            vals.append(Mark("not a config"))
    if "nan" in repr(vals):
        return
    before = [state(o) for _, o in ps]
    for i, (na, a) in enumerate(ps):
        for j, (nb, b) in enumerate(ps):
            if not isinstance(a, Container) and not isinstance(b, Container):
                continue
            if any(isinstance(v, Mark) and v.text == "not a config" for v in (vals[i], vals[j])):
                continue
            try:
                eq, ne = a == b, a != b
            except RecursionError:
                mon.stat("recursion")
                continue
            want = vals[i] == vals[j]
            mon.check(eq is want, f"{na} == {nb} is {eq}; values {vals[i]!r:.500} and {vals[j]!r:.500}", "equal")
            mon.check(ne is not want, f"{na} != {nb} is {ne}; == is {eq}", "negation")
            mon.ev("equal_pairs" if want else "unequal_pairs")
            if i == j:
                mon.ev("reflexive")
    for (n, o), s in zip(ps, before):
        mon.check(state(o) == s, f"comparing changed {n}", "changed")
