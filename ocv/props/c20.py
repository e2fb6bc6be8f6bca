"""C20: pickling and copying preserve everything and stay independent."""
import copy
import pickle
import warnings

from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.base import Container, Node, UnionNode
from omegaconf.errors import OmegaConfBaseException

from ocv import types_ as T
from ocv.gen import G, same
from ocv.props import c14
from ocv.snap import child, containers, first_diff, keys_of, nodes, raw, snap, special, wellformed
from ocv.world import World

CASE_CPU_LIMIT = 120.0


def setup(scratch):
    warnings.simplefilter("ignore")
    OmegaConf.clear_resolvers()
    for n, f in c14.CALLS.items():
        OmegaConf.register_new_resolver(n, f)
    OmegaConf.register_new_resolver("ocv_cached", lambda *a: list(a), use_cache=True)


def methods(rng, n):
    p = rng.randint(0, pickle.HIGHEST_PROTOCOL)
    m = {
        "copy.copy": copy.copy,
        "copy.deepcopy": copy.deepcopy,
        f"pickle protocol {p}": lambda x: pickle.loads(pickle.dumps(x, protocol=p)),
        "pickle of the pickle": lambda x: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(x)))),
        "deepcopy of a pickle": lambda x: copy.deepcopy(pickle.loads(pickle.dumps(x))),
    }
    if isinstance(n, Container):
        m["copy method"] = lambda x: x.copy()
    else:
        del m["copy.copy"]  # a shallow copy of a value node is Python's
    return rng.choice(list(m.items()))


def mutables(root):
    """Ids of the mutable Python objects that make up a tree."""
    out = {}
    for path, _, n in nodes(root):
        out[id(n)] = path
        out[id(n._metadata)] = path + ("metadata",)
        if n._metadata.flags is not None:
            out[id(n._metadata.flags)] = path + ("flags",)
        if isinstance(n, Container):
            out[id(n._metadata.resolver_cache)] = path + ("cache",)
            if isinstance(n.__dict__["_content"], (dict, list)):
                out[id(n.__dict__["_content"])] = path + ("content",)
    return out


def outcome(f):
    try:
        return "ok", f()
    except RecursionError:
        return "recursion", None
    except Exception as e:
        return type(e).__name__, None


def describe(v):
    if isinstance(v, Node):
        return ("node", snap(v))
    return ("value", type(v).__name__, repr(v))


def reads(node):
    """Everything a user can read from a node (a container), as comparable data."""
    out = []
    for p, c in containers(node):
        out.append((p, [f for f in ("readonly", "struct", "allow_objects", "own") if c._get_flag(f)], c._is_typed() if isinstance(c, DictConfig) else None))
        out.append((p, outcome(lambda: str(OmegaConf.get_type(c))), outcome(lambda: str(c))))
        if special(c):
            continue
        for k in keys_of(c):
            s, v = outcome(lambda: c[k])
            out.append((p, repr(k), s, describe(v)))
            out.append((OmegaConf.is_missing(c, k), OmegaConf.is_interpolation(c, k)))
    s, v = outcome(lambda: OmegaConf.to_container(node, resolve=True))
    out.append((s, repr(v)))
    s, v = outcome(lambda: OmegaConf.to_container(node))
    out.append((s, repr(v)))
    s, v = outcome(lambda: OmegaConf.to_object(node))
    out.append((s, repr(v)))
    s, v = outcome(lambda: sorted(OmegaConf.missing_keys(node)))
    out.append((s, repr(v)))
    return out


def check_copy(mon, node, cp, what, root=None):
    mon.check(type(cp) is type(node), f"{what} gives a {type(cp).__name__}", "type")
    d = first_diff(snap(node), snap(cp))
    mon.check(d is None, f"{what} differs: {d}", "content", original=node, copy=cp)
    for f in ("readonly", "struct", "allow_objects"):
        mon.check(cp._get_flag(f) == node._get_flag(f), f"{what}: flag {f} is {cp._get_flag(f)}, was {node._get_flag(f)}", "flags")
    a, b = mutables(node), mutables(cp)
    for i in b:
        mon.check(i not in a, f"{what} shares the object at {b[i]} with the original at {a.get(i)}", "shared")
    wellformed(cp, mon, what)
    if isinstance(node, Container):
        x, y = reads(node), reads(cp)
        if node._get_parent() is not None:
            # a reference to an ancestor of itself is an error; in the copy of a node the
            # same reference leads to the original, which is not an ancestor of the copy
            bad = [i for i, p in enumerate(x) if "InterpolationResolutionError" in p]
            if bad and len(x) == len(y):
                x = [p for i, p in enumerate(x) if i not in bad]
                y = [p for i, p in enumerate(y) if i not in bad]
        mon.check(x == y, f"{what} reads differently: {[(p, q) for p, q in zip(x, y) if p != q][:2]!r:.800}", "reads")
        if not special(node):
            try:
                mon.check(node == cp, f"{what} is not equal to its original", "equal") if "nan" not in repr(raw(node)) else None
            except RecursionError:
                pass
            for k in keys_of(node):
                c1, c2 = child(node, k), child(cp, k)
                v = outcome(lambda: c2._dereference_node())[1]
                # what is read through the copy is part of the copy
                if v is not None and cp._get_parent() is None:
                    n, top = v, None
                    while n is not None:
                        top, n = n, n._get_parent()
                    if any(v is m for _, _, m in nodes(cp)) or isinstance(v, Container):
                        mon.check(top is cp, f"{what}: reading {k!r} of the copy gives a node that is not in the copy", "inside")
                mon.check(not any(v is m for _, _, m in nodes(node)) or cp._get_parent() is not None, f"{what}: reading {k!r} of the copy gives a node of the original", "inside")
    mon.ev("copies_agreed")


def build(rng, mon):
    if rng.random() < 0.3:
        w = c14.W(rng, mon, calls=rng.random() < 0.5)
        for _ in range(rng.randint(0, 3)):
            w.step()
        return None, w.cfg
    w = World(rng, mon, inter=0.15, missing=0.08, flags=rng.choice([0, 0, 0.2, 0.4]))
    for _ in range(rng.randint(0, 5)):
        d, f = w.single() if rng.random() < 0.7 else w.bulk()
        mon.log(d)
        try:
            f()
        except RecursionError:
            raise
        except Exception:
            pass
    return w, w.cfg


def pick(rng, cfg):
    ns = [(p, n) for p, parent, n in nodes(cfg) if not isinstance(parent, UnionNode)]
    if rng.random() < 0.55:
        return (), cfg
    cs = [(p, n) for p, n in ns if isinstance(n, Container)]
    return rng.choice(cs if rng.random() < 0.7 else ns)


def history(rng, mon):
    w, cfg = build(rng, mon)
    whole = snap(cfg, ids=True)
    for _ in range(3):
        path, node = pick(rng, cfg)
        if isinstance(node, Container) and not special(node) and rng.random() < 0.3:
            # caches of effective flags are filled, and stay consistent
            for f in ("readonly", "struct"):
                node._get_flag(f)
        name, f = methods(rng, node)
        mon.log("copy", repr(path), name)
        cp = f(node)
        check_copy(mon, node, cp, f"{name} of the node at {path}")
        mon.check(snap(cfg, ids=True) == whole, f"{name} of the node at {path} changed the original", "changed")
        wellformed(cfg, mon, f"after {name}")
        # several related objects at once keep their relation
        if path and rng.random() < 0.3:
            pair = [cfg, node] if rng.random() < 0.5 else [node, cfg]
            dup = copy.deepcopy(pair) if rng.random() < 0.5 else pickle.loads(pickle.dumps(pair))
            c2, n2 = dup if pair[0] is cfg else dup[::-1]
            at = c2
            for k in path:
                at = child(at, k)
            mon.check(at is n2, f"copying a config together with its node at {path} separates them", "related")
            check_copy(mon, cfg, c2, f"copy of the config with its node at {path}")
            mon.ev("related_agreed")
    # same operations on both sides: same outcomes, no influence
    if w is None:
        return
    path, node = pick(rng, cfg) if rng.random() < 0.4 else ((), cfg)
    if not isinstance(node, Container) or special(node):
        return
    t = w.type_at(path)
    name, f = methods(rng, node)
    mon.log("follow", repr(path), name)
    cp = f(node)
    w.t = t if t is not None else ("any",)
    if special(node):
        return
    for _ in range(rng.randint(1, 6)):
        kind = rng.random() < 0.75
        flag = rng.random() < 0.15
        res = []
        state = rng.getstate()
        order = [cp, node] if rng.random() < 0.5 else [node, cp]
        state = rng.getstate()
        for side in order:
            rng.setstate(state)
            other = node if side is cp else cp
            w.cfg = side
            if flag:
                p, c = rng.choice(containers(side))
                fl, v = rng.choice(["readonly", "struct"]), rng.choice([True, False, None])
                d, op = f"flag {fl}={v} at {p}", lambda: c._set_flag(fl, v)
            else:
                d, op = w.single() if kind else w.bulk()
            before = snap(other, ids=True)
            try:
                r = op()
                res.append((d, "ok", describe(r)))
            except RecursionError:
                res.append((d, "RecursionError", None))
            except Exception as e:
                res.append((d, type(e).__name__, str(e) if isinstance(e, OmegaConfBaseException) else None))
            mon.check(snap(other, ids=True) == before, f"'{d}' on the {'copy' if side is cp else 'original'} changed the other side", "independent")
        mon.log("both", res[0][0], res[0][1])
        (d0, s0, r0), (d1, s1, r1) = res
        if d0 != d1:
            mon.stat("diverged_generation")
            mon.check(first_diff(snap(node), snap(cp)) is None, f"the sides differ before '{d0}'", "follow")
            return
        if path != () and s0 != s1 and "parent node detected" in str((r0, r1)):
            return  # see check_copy: a node inside itself and its copy differ in this
        mon.check(s0 == s1, f"'{d0}': {s0} on one side, {s1} on the other ({r0!r:.200} / {r1!r:.200})", "follow")
        if path == () and s0 != "ok":
            mon.check(r0 == r1, f"'{d0}' fails with {r0!r} on one side, {r1!r} on the other", "follow")
        diff = first_diff(snap(node), snap(cp))
        mon.check(diff is None, f"after '{d0}' the sides differ: {diff}", "follow")
        mon.ev("followed_ops_agreed")
        mon.stat("followed_" + ("ok" if s0 == "ok" else "error"))
        if s0 == "RecursionError":
            return
        wellformed(cp, mon, "copy")


def leaves(rng, mon):
    """Nodes on their own."""
    g = G(rng)
    t = T.gen_type(g, 1)
    sc = T.make_sc(g, [("a", t, T.NODEF)], "dataclass") if False else None
    cfg = DictConfig({}, element_type=T.hint(t))
    v = T.gen_value(t, g, special=0.15)
    try:
        cfg["k"] = T.build(t, v)
        if rng.random() < 0.3:
            cfg["k"] = rng.choice(["${x}", None, "???"])
    except OmegaConfBaseException:
        pass
    if "k" not in list(cfg.keys()):
        return
    n = child(cfg, "k")
    if rng.random() < 0.4:
        n._set_flag(rng.choice(["readonly", "struct", "own"]), rng.choice([True, False]))
    name, f = methods(rng, n)
    mon.log("leaf", T.show(t), repr(n._value()), name)
    cp = f(n)
    check_copy(mon, n, cp, f"{name} of a {T.show(t)} node")
    mon.check(cp._key() == "k", f"{name} loses the key", "content")
    # it accepts and rejects the same
    for _ in range(4):
        x = T.odd_value(g)
        out = []
        for side in (n, cp):
            try:
                side._set_value(copy.deepcopy(x))
                out.append(("ok", snap(side)))
            except RecursionError:
                raise
            except Exception as e:
                out.append((type(e).__name__, snap(side)))
        mon.check(out[0] == out[1], f"after {name} of a {T.show(t)} node, setting {x!r} gives {out[0]!r:.300} and {out[1]!r:.300}", "follow")
        mon.ev("leaf_ops_agreed")
    _ = sc


class Obj:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Obj) and o.v == self.v

    def __repr__(self):
        return f"Obj({self.v!r})"


def objects(rng, mon):
    """Arbitrary objects and cached resolver results are copied too."""
    cfg = OmegaConf.create({"o": Obj([1, 2]), "d": {"o": Obj({"a": [1]})}, "c": "${ocv_cached:x,[1]}"}, flags={"allow_objects": True})
    got = cfg.c
    name, f = methods(rng, cfg)
    cp = f(cfg)
    mon.check(cp.o == cfg.o and cp.d.o == cfg.d.o, f"{name} changes objects held by the config", "objects")
    mon.check(cp._get_flag("allow_objects") is True, f"{name} loses allow_objects", "flags")
    mon.check(cp.c == got and OmegaConf.get_cache(cp)["ocv_cached"] == OmegaConf.get_cache(cfg)["ocv_cached"], f"{name} loses cached results", "cache")
    if name != "copy.copy" and name != "copy method":
        OmegaConf.get_cache(cp)["ocv_cached"][("z",)] = 1
        cp.c.append("more")
        mon.check(cfg.c == got == ["x", [1]] and ("z",) not in OmegaConf.get_cache(cfg)["ocv_cached"], f"{name} shares the resolver cache", "shared")
    OmegaConf.clear_cache(cp)
    mon.check(len(OmegaConf.get_cache(cfg)["ocv_cached"]) == 1, "clearing the cache of a copy clears that of the original", "cache")
    mon.ev("objects_agreed")


def parents(rng, mon):
    """Interpolations of copies: of a root inside the copy, of a part through its parent as before."""
    cfg = OmegaConf.create({"v": 1, "s": {"r": "${v}", "q": "${..v}", "z": "${.w}", "w": 2, "deep": [{"x": "${....v}", "y": "${...w}"}]}})
    name, f = methods(rng, cfg)
    cp = f(cfg)
    cp.v = 10
    cp.s.w = 20
    mon.check([cp.s.r, cp.s.q, cp.s.z, cp.s.deep[0].x, cp.s.deep[0].y] == [10, 10, 20, 10, 20], f"interpolations of a {name} do not resolve inside it: {OmegaConf.to_container(cp, resolve=True)}", "inside")
    mon.check([cfg.s.r, cfg.s.q, cfg.s.z, cfg.s.deep[0].x] == [1, 1, 2, 1], f"changing a {name} changes the original", "independent")
    part = rng.choice([cfg.s, cfg.s.deep, cfg.s.deep[0]])
    name, f = methods(rng, part)
    cp = f(part)
    a, b = OmegaConf.to_container(part, resolve=True), OmegaConf.to_container(cp, resolve=True)
    mon.check(a == b, f"{name} of a part reads {b}, the part reads {a}", "reads")
    mon.ev("parents_agreed")


def case(rng, mon, i):
    x = rng.random()
    if x < 0.75:
        history(rng, mon)
    elif x < 0.92:
        for _ in range(5):
            leaves(rng, mon)
    else:
        objects(rng, mon)
        parents(rng, mon)
    _ = (ListConfig, same)
