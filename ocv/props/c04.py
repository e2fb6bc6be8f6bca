"""C04: configs never share mutable state with other configs or with inputs."""
import copy
import dataclasses
import pickle

import attr

from omegaconf import AnyNode, DictConfig, IntegerNode, ListConfig, OmegaConf, StringNode
from omegaconf.base import Node

from ocv import types_ as T
from ocv.gen import G
from ocv.snap import containers, first_diff, ids_of, keys_of, raw, snap, wellformed
from ocv.world import World


def freeze(o):
    """Complete description of an input, identities of its containers included."""
    if isinstance(o, Node):
        return ("node", snap(o, ids=True), id(o._get_parent()), repr(o._key()))
    if isinstance(o, type):
        return ("class", o.__name__)
    if type(o) is dict:
        return ("dict", id(o), tuple((repr(k), freeze(v)) for k, v in o.items()))
    if type(o) in (list, tuple):
        return (type(o).__name__, id(o), tuple(freeze(v) for v in o))
    if dataclasses.is_dataclass(o):
        return ("inst", id(o), tuple((f.name, freeze(getattr(o, f.name))) for f in dataclasses.fields(o)))
    if attr.has(type(o)):
        return ("inst", id(o), tuple((f.name, freeze(getattr(o, f.name))) for f in attr.fields(type(o))))
    return ("leaf", type(o).__name__, repr(o))


def boxes(o, out=None):
    """Every mutable plain container or instance inside an input."""
    out = [] if out is None else out
    if type(o) is dict:
        out.append(o)
        for v in o.values():
            boxes(v, out)
    elif type(o) in (list, tuple):
        if type(o) is list:
            out.append(o)
        for v in o:
            boxes(v, out)
    elif isinstance(o, type) or isinstance(o, Node):
        pass
    elif dataclasses.is_dataclass(o):
        out.append(o)
        for f in dataclasses.fields(o):
            boxes(getattr(o, f.name), out)
    elif attr.has(type(o)):
        out.append(o)
        for f in attr.fields(type(o)):
            boxes(getattr(o, f.name), out)
    return out


def mutate_plain(o, r):
    bs = boxes(o)
    if not bs:
        return False
    for _ in range(3):
        b = r.choice(bs)
        if type(b) is dict:
            b["__added__"] = 1
            if r.random() < 0.5:
                b.pop(next(iter(b)))
        elif type(b) is list:
            b.append(77)
            if r.random() < 0.5:
                b[0] = "__changed__"
        else:
            names = [f.name for f in (dataclasses.fields(b) if dataclasses.is_dataclass(b) else attr.fields(type(b)))]
            setattr(b, r.choice(names), "__changed__")
    return True


def nodes_in(o, out=None):
    """Every config node inside a plain input."""
    out = [] if out is None else out
    if isinstance(o, Node):
        out.append(o)
    elif type(o) is dict:
        for v in o.values():
            nodes_in(v, out)
    elif type(o) in (list, tuple):
        for v in o:
            nodes_in(v, out)
    return out


def view(w, cfg, t):
    w2 = copy.copy(w)
    w2.cfg, w2.t = cfg, t
    return w2


def mutations(w, mon, who, n):
    """Random changes of w.cfg; failures are fine."""
    done = 0
    for _ in range(n):
        x = w.r.random()
        if x < 0.2:
            p, c = w.pick()
            f, v = w.r.choice(["readonly", "struct", "allow_objects"]), w.r.choice([True, False, None])
            d, f = f"flag {f}={v} at {list(p)}", lambda c=c, f=f, v=v: c._set_flag(f, v)
        elif x < 0.8:
            d, f = w.single()
        else:
            d, f = w.bulk()
        mon.log(f"{who}: {d}")
        try:
            f()
            done += 1
        except RecursionError:
            raise
        except Exception as e:  # noqa: BLE001
            mon.log(f"  raised {type(e).__name__}")
    # at least one change at every level
    for p, c in containers(w.cfg):
        c._set_flag("readonly", False)
        c._set_flag("struct", False)
        try:
            if isinstance(c, DictConfig):
                c["__x__"] = 1
            else:
                c.append(w.r.choice([1, "x", None, True]))
            done += 1
        except Exception:  # noqa: BLE001
            pass
    return done


def disjoint(mon, what, a, b):
    both = ids_of(a) & ids_of(b)
    mon.check(not both, f"{what}: a node is shared between the two sides", "shared-node", a=raw(a), b=raw(b))
    mon.ev("disjointness_checked")


def isolated(mon, w, what, a, ta, b, tb):
    """Changes of either side are never seen by the other."""
    disjoint(mon, what, a, b)
    for x, tx, y, nm in ((a, ta, b, "first"), (b, tb, a, "second")):
        before = snap(y, ids=True)
        n = mutations(view(w, x, tx), mon, nm, w.r.randint(1, 4))
        d = first_diff(before, snap(y, ids=True))
        mon.check(not d, f"{what}: changes of the {nm} side are visible on the other: {d}", "leak")
        mon.ev("later_changes_checked", n)


def derive(w, mon):
    """A config made from w.cfg; returns (what, result, declared type or None, other inputs)."""
    r, c = w.r, w.cfg
    ops = ["copy", "deepcopy", "pickle", "create", "merge1", "merge2", "merge_into", "ctor", "assign", "nested", "structured"]
    if isinstance(c, DictConfig):
        ops += ["masked", "update", "setdefault"]
    else:
        ops += ["add", "radd", "extend", "insert"]
    op = r.choice(ops)
    mon.log("derive", op)
    if op == "copy":
        return op, r.choice([copy.copy, lambda x: x.copy()])(c), w.t
    if op == "deepcopy":
        return op, copy.deepcopy(c), w.t
    if op == "pickle":
        return op, pickle.loads(pickle.dumps(c, protocol=r.randint(2, 5))), w.t
    if op == "create":
        return op, OmegaConf.create(c), w.t
    if op == "structured":
        return op, OmegaConf.structured(c) if isinstance(c, DictConfig) else OmegaConf.create(c), w.t
    if op == "ctor":
        return op, type(c)(c), w.t
    if op == "merge1":
        return op, OmegaConf.merge(c), w.t
    if op in ("merge2", "merge_into"):
        t2 = w.g.tree(depth=2, width=3, root="dict" if isinstance(c, DictConfig) else "list")
        other = OmegaConf.create(t2)
        if op == "merge2":
            return op, OmegaConf.merge(c, other), w.t
        return op, OmegaConf.merge(other, c), ("any",)
    if op == "assign":
        dst = OmegaConf.create({"a": {}, "l": [1, 2]})
        k = r.choice(["a", "new", "l"])
        if r.random() < 0.5:
            setattr(dst, k, c)
        else:
            dst[k] = c
        return op, dst, ("any",)
    if op == "nested":
        return op, OmegaConf.create({"a": [c, {"z": c}], "b": c}), ("any",)
    if op == "masked":
        ks = [k for k in keys_of(c)]
        return op, OmegaConf.masked_copy(c, ks), ("any",)
    if op == "update":
        dst = OmegaConf.create({"a": {"q": 1}})
        OmegaConf.update(dst, r.choice(["a", "n", "x.y"]), c, merge=r.random() < 0.5)
        return op, dst, ("any",)
    if op == "setdefault":
        dst = OmegaConf.create({"a": {"q": 1}})
        dst.setdefault("n", c)
        return op, dst, ("any",)
    if op == "add":
        return op, c + [1, c], ("any",)
    if op == "radd":
        return op, [c] + c, ("any",)
    dst = OmegaConf.create([1, 2])
    if op == "extend":
        dst.extend(c)
        return op, dst, ("any",)
    dst.insert(r.randint(0, 2), c)
    dst.append(c)
    dst[0] = c
    dst[1:2] = [c, c]
    return op, dst, ("any",)


def case_derive(rng, mon):
    w = World(rng, mon, flags=rng.choice([0, 0, 0.1]))
    for _ in range(rng.randint(1, 2)):
        if rng.random() < 0.4:
            w.cfg._set_flag("readonly", None)
        path, c = w.pick()
        t = w.type_at(path) if path else w.t
        if rng.random() < 0.6:
            w2 = w
            path = ()
        else:
            w2 = view(w, c, t or ("any",))
            if not (isinstance(c, (DictConfig, ListConfig)) and keys_of(c)):
                continue
        before = snap(w.cfg, ids=True)
        what = "?"
        try:
            what, res, tr = derive(w2, mon)
        except RecursionError:
            raise
        except Exception as e:  # noqa: BLE001
            mon.log(f"  raised {type(e).__name__}")
            res = None
        d = first_diff(before, snap(w.cfg, ids=True))
        mon.check(not d, f"{what} of the config at {list(path)} altered its input: {d}", "input-changed")
        wellformed(w.cfg, mon, f"input of {what}")
        mon.ev("inputs_checked")
        if res is None:
            continue
        mon.stat("derive:" + what)
        isolated(mon, w, what, w.cfg, w.t, res, tr or ("any",))
        wellformed(w.cfg, mon, f"input of {what} after changes")


def case_input(rng, mon):
    """Plain inputs and inputs of single operations."""
    w = World(rng, mon)
    g = w.g
    for _ in range(rng.randint(1, 3)):
        x = rng.random()
        if x < 0.3 and w.scs:
            sc = rng.choice(w.scs)
            obj = T.build(("sc", sc), T.gen_value(("sc", sc), g))
        elif x < 0.9:
            obj = g.tree(depth=3, width=3, keys="ssi", root=rng.choice(["dict", "list"]))
            bs = boxes(obj)
            b = rng.choice(bs)
            for _ in range(rng.randint(0, 2)):
                v = w.value()[0]
                if type(b) is dict:
                    b[g.ident()] = v
                else:
                    b.append(v)
        else:
            obj, _ = w.value()
        how = rng.choice(["create", "assign", "append", "merge", "unsafe", "update", "dupdate", "extend", "mwith", "slice"])
        mon.log(f"input {how}", obj)
        before = freeze(obj)
        dst = OmegaConf.create({"a": {"k": 1}, "l": [1, {"z": 2}]})
        ok = True
        try:
            if how == "create":
                dst = OmegaConf.create(obj)
            elif how == "assign":
                dst["a"] = obj
                dst.l[1] = obj
                dst.n = obj
            elif how == "append":
                dst.l.append(obj)
                dst.l.insert(0, obj)
            elif how == "merge":
                dst = OmegaConf.merge(dst, {"a": obj, "n": obj}) if rng.random() < 0.5 else OmegaConf.merge(obj, obj)
            elif how == "unsafe":
                dst.merge_with({"n": obj}, {"l": [obj]})
            elif how == "update":
                OmegaConf.update(dst, "a", obj, merge=rng.random() < 0.5)
                OmegaConf.update(dst, "x.y", obj)
            elif how == "dupdate":
                dst.update({"a": obj, "m": obj})
            elif how == "extend":
                dst.l.extend([obj, obj])
                dst.l = dst.l + [obj]
            elif how == "mwith":
                dst.merge_with(obj)
            else:
                dst.l[0:1] = [obj, obj]
        except RecursionError:
            raise
        except Exception as e:  # noqa: BLE001
            mon.log(f"  raised {type(e).__name__}")
            ok = False
        d = first_diff(before, freeze(obj))
        mon.check(not d, f"{how} altered its input: {d}", "input-changed", input=obj)
        mon.ev("inputs_checked")
        if not ok or not isinstance(dst, (DictConfig, ListConfig)):
            continue
        wellformed(dst, mon, how)
        if how == "create" and dst is obj:
            continue
        inner = [n for n in nodes_in(obj)]
        for n in inner:
            disjoint(mon, how, n, dst)
        snaps = [freeze(n) for n in inner]
        s = snap(dst, ids=True)
        if not isinstance(obj, type) and mutate_plain(obj, rng):
            d = first_diff(s, snap(dst, ids=True))
            mon.check(not d, f"{how}: a later change of the plain input is visible in the config: {d}", "leak")
            mon.ev("later_changes_checked")
        for n in inner:
            if isinstance(n, (DictConfig, ListConfig)):
                s = snap(dst, ids=True)
                root = n._get_root()
                if root is w.cfg:
                    mutations(view(w, root, w.t), mon, "input", 2)
                else:
                    mutations(view(w, root, ("any",)), mon, "input", 2)
                d = first_diff(s, snap(dst, ids=True))
                mon.check(not d, f"{how}: a later change of an input config is visible: {d}", "leak")
                mon.ev("later_changes_checked")
                snaps = [freeze(n) for n in inner]
        frozen = freeze(obj)
        mutations(view(w, dst, ("any",)), mon, "config", 3)
        for n, f in zip(inner, snaps):
            d = first_diff(f, freeze(n))
            mon.check(not d, f"{how}: a later change of the config is visible in the input config: {d}", "leak")
        d = first_diff(frozen, freeze(obj))
        mon.check(not d, f"{how}: a later change of the config is visible in the input: {d}", "leak")
        mon.ev("later_changes_checked")


_n = [0]


def _count(*a):
    _n[0] += 1
    return _n[0]


def _box(kind, *a):
    _n[0] += 1
    n = _n[0]
    if kind == "dict":
        return OmegaConf.create({"v": n, "s": {"t": [n]}})
    if kind == "list":
        return OmegaConf.create([n, {"t": n}])
    if kind == "plain":
        return {"v": n, "s": [n]}
    return [n, [n]]


def setup(scratch):
    OmegaConf.register_new_resolver("ocv4", _count, use_cache=True)
    OmegaConf.register_new_resolver("ocv4box", _box, use_cache=True)


def case_cache(rng, mon):
    """Cached resolver results stay with their config; own defaults of classes."""
    g = G(rng)
    mk = rng.choice(["dict", "list"])
    boxed = rng.choice([0, 0.5, 1])
    vals = [
        "${ocv4box:%s,%d}" % (rng.choice(["dict", "list", "plain", "pl"]), rng.randint(0, 2))
        if rng.random() < boxed else "${ocv4:%d}" % rng.randint(0, 2)
        for _ in range(3)
    ]  # fmt: skip
    cfg = OmegaConf.create({"a": vals[0], "b": {"c": vals[1]}, "d": [vals[2]]} if mk == "dict" else [vals[0], {"c": vals[1]}])

    def read(c):
        return OmegaConf.to_container(c, resolve=True)

    if rng.random() < 0.6:
        read(cfg)
    kinds = ["copy", "deepcopy", "pickle", "create", "merge", "merge2", "copy_cache", "set_cache"]
    k = rng.choice(kinds)
    mon.log("cache", k, cfg)
    if k == "copy":
        other = cfg.copy()
    elif k == "deepcopy":
        other = copy.deepcopy(cfg)
    elif k == "pickle":
        other = pickle.loads(pickle.dumps(cfg))
    elif k == "create":
        other = OmegaConf.create(cfg)
    elif k == "merge":
        other = OmegaConf.merge(cfg)
    elif k == "merge2":
        other = OmegaConf.merge(OmegaConf.create({} if mk == "dict" else []), cfg)
    else:
        other = OmegaConf.create(OmegaConf.to_container(cfg))
        if k == "copy_cache":
            OmegaConf.copy_cache(cfg, other)
        else:
            OmegaConf.set_cache(other, OmegaConf.get_cache(cfg))
    for x, y, nm in ((cfg, other, "original"), (other, cfg, "derived")):
        before = repr({a: dict(b) for a, b in OmegaConf.get_cache(y).items()})
        for p in (("a", "b.c", "d[0]") if mk == "dict" else ("[0]", "[1].c")):
            # change what the functions returned
            try:
                v = OmegaConf.select(x, p)
                if not isinstance(v, (DictConfig, ListConfig)) or rng.random() < 0.3:
                    continue
                v = rng.choice([c for _, c in containers(v)])
                OmegaConf.set_readonly(v, False)
                if isinstance(v, DictConfig):
                    v[rng.choice(["v", "t", "new"])] = -1
                else:
                    rng.choice([lambda: v.append(-1), lambda: v.__setitem__(0, -1), lambda: v.pop()])()
            except RecursionError:
                raise
            except Exception as e:  # noqa: BLE001
                mon.log(f"  raised {type(e).__name__}")
                continue
            mon.log(f"changed the result at {p} of the {nm}")
            mon.ev("cached_results_changed")
            now = repr({a: dict(b) for a, b in OmegaConf.get_cache(y).items()})
            mon.check(before == now, f"{k}: changing a cached result of the {nm} is visible on the other side", "cache-leak", before=before, after=now)
        v1 = read(x)
        if rng.random() < 0.5:
            OmegaConf.clear_cache(x)
            v2 = read(x)
            mon.check(v1 != v2, "clear_cache had no effect", "cache", v1=v1, v2=v2)
        if mk == "dict":
            x["n%d" % rng.randint(0, 9)] = "${ocv4:%d}" % rng.randint(3, 6)
        else:
            x.append("${ocv4:%d}" % rng.randint(3, 6))
        v3 = read(x)
        mon.check(v3 == read(x), "a cached resolver result changed", "cache")
        after = repr({a: dict(b) for a, b in OmegaConf.get_cache(y).items()})
        mon.check(
            before == after, f"{k}: cache entries made by reading the {nm} are visible on the other side", "cache-leak",
            before=before, after=after,
        )  # fmt: skip
        mon.ev("cache_checked")


def case_class(rng, mon):
    g = G(rng)
    scs = T.gen_scs(g, rng.choice([1, 2]), depth=2)
    sc = scs[-1]
    w = World.__new__(World)
    w.g, w.r, w.mon, w.scs, w.inter, w.missing = g, rng, mon, scs, 0.1, 0.05
    mon.log("class", *map(repr, scs))
    obj = sc.cls if rng.random() < 0.6 else sc.cls()
    a = OmegaConf.structured(obj)
    b = OmegaConf.structured(obj) if rng.random() < 0.5 else OmegaConf.create({"x": obj})
    w.cfg, w.t = a, ("sc", sc)
    fresh = snap(OmegaConf.structured(obj))
    isolated(mon, w, "two configs of one class", a, ("sc", sc), b, ("any",) if "x" in b else ("sc", sc))
    d = first_diff(fresh, snap(OmegaConf.structured(obj)))
    mon.check(not d, f"changing a config altered the class defaults: {d}", "class-default")
    mon.ev("inputs_checked")


def case_flags(rng, mon):
    """The flags given to a new config stay the caller's."""
    g = G(rng)
    given = {f: rng.choice([True, False]) for f in ("readonly", "struct", "allow_objects") if rng.random() < 0.6}
    want = dict(given)
    made = []
    src = OmegaConf.create({"k": 1})
    for _ in range(rng.randint(2, 4)):
        kind = rng.choice(["create", "createl", "dict", "list", "dictcfg", "listcfg", "none", "missing", "inter",
                           "structured", "yaml", "any", "int", "str"])
        mon.log(f"make {kind}", given)
        if kind in ("create", "dict"):
            f = OmegaConf.create if kind == "create" else DictConfig
            made.append(f(g.tree(depth=2, width=2, root="dict"), flags=given))
        elif kind in ("createl", "list"):
            f = OmegaConf.create if kind == "createl" else ListConfig
            made.append(f(g.tree(depth=2, width=2, root="list"), flags=given))
        elif kind == "dictcfg":
            made.append(rng.choice([OmegaConf.create, DictConfig])(src, flags=given))
        elif kind == "listcfg":
            made.append(rng.choice([OmegaConf.create, ListConfig])(OmegaConf.create([1, [2]]), flags=given))
        elif kind in ("none", "missing", "inter"):
            v = {"none": None, "missing": "???", "inter": "${x}"}[kind]
            made.append(rng.choice([DictConfig, ListConfig])(v, flags=given))
        elif kind == "structured":
            made.append(OmegaConf.structured(T.gen_scs(g, 1, depth=1)[-1].cls, flags=given))
        elif kind == "yaml":
            made.append(OmegaConf.create(rng.choice(["a: 1", "[1, 2]", "", "x"]), flags=given))
        else:
            made.append({"any": AnyNode, "int": IntegerNode, "str": StringNode}[kind](1, flags=given))
    for _ in range(rng.randint(1, 5)):
        i = rng.randrange(len(made))
        before = [dict(n._metadata.flags) for n in made]
        n, f, v = made[i], rng.choice(["readonly", "struct"]), rng.choice([True, False, None])
        mon.log(f"config {i}: {f} set to {v}")
        x = rng.random()
        if x < 0.15:
            f, v = "readonly", rng.choice([True, False])
            given[f] = want[f] = v
            i = -1
        elif x < 0.6 or not isinstance(n, (DictConfig, ListConfig)):
            n._set_flag(f, v)
        elif f == "readonly":
            OmegaConf.set_readonly(n, v)
        else:
            OmegaConf.set_struct(n, v)
        mon.check(given == want, f"a flag of a config changed the flags given to it: {given}, given {want}", "flags")
        for j, n2 in enumerate(made):
            if j != i:
                got = dict(n2._metadata.flags)
                mon.check(got == before[j], f"flag {f} set to {v} elsewhere changed the flags of config {j}: {got}, had {before[j]}", "flags")
        mon.ev("later_changes_checked")


def case(rng, mon, i):
    x = rng.random()
    if x < 0.03:
        case_flags(rng, mon)
    elif x < 0.5:
        case_derive(rng, mon)
    elif x < 0.8:
        case_input(rng, mon)
    elif x < 0.9:
        case_cache(rng, mon)
    else:
        case_class(rng, mon)
