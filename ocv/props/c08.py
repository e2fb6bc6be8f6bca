"""C08: union fields take exactly their member types and never convert."""
import copy
import pickle

from omegaconf import DictConfig, ListConfig, OmegaConf, nodes
from omegaconf.base import UnionNode
from omegaconf.errors import InterpolationValidationError

from ocv import types_ as T
from ocv.gen import G, same
from ocv.props import c07
from ocv.props.c07 import REJECT, doors, read, setup, special  # noqa: F401
from ocv.snap import containers, raw, snap


def member_values(t, g):
    """Values at and around the member types."""
    r = g.r
    if r.random() < 0.5:
        v = T.gen_value(t, g)
        if v is not None and r.random() < 0.3 and type(v) in (int, float, str, bool):
            try:
                v = r.choice([int, float, str, bool])(v)
            except (ValueError, OverflowError):
                pass
        return v
    return T.near_value(g) if r.random() < 0.15 else T.odd_value(g)


def agree(mon, t, g, rng):
    v = member_values(t, g)
    if special(v):
        return
    try:
        want, bad = T.conv(t, v), False
    except T.Bad:
        want, bad = None, True
    mon.log(T.show(t), repr(v), "->", "reject" if bad else "accept")
    ds = doors(t, v, g, rng)

    def union_node():
        return OmegaConf.create({"n": UnionNode(v, T.hint(T.base(t)), is_optional=t[0] == "opt")}), "n"

    def assigned_typed_node():
        from omegaconf import nodes

        by = {int: nodes.IntegerNode, float: nodes.FloatNode, str: nodes.StringNode, bool: nodes.BooleanNode, bytes: nodes.BytesNode}
        c = OmegaConf.structured(T.make_sc(g, [("a", t, T.NODEF)]).cls)
        n = by[type(v)](v) if type(v) in by else nodes.AnyNode(v)
        c.a = n
        return c, "a"

    ds.append(("union_node", union_node))
    if not isinstance(v, (dict, list, tuple)):
        ds.append(("assigned_typed_node", assigned_typed_node))
    for name, f in ds:
        if bad and name in ("interpolation", "resolver_result", "interpolated_element"):
            continue  # reading an interpolation held by a union field is not validated
        got = root = exc = None
        try:
            root, path = f()
            got = read(root, path)
        except REJECT as e:
            exc = e
        except InterpolationValidationError as e:
            exc = e
        if bad:
            mon.check(exc is not None, f"{name}: {v!r} is accepted as {T.show(t)} and gives {got!r}", "accepted", door=name)
            mon.ev("rejections_agreed")
            continue
        if exc is not None:
            mon.fail(f"{name}: {v!r} is rejected as {T.show(t)}: {str(exc)[:200]}", "rejected", door=name)
        mon.check(same(got, want), f"{name}: {v!r} as {T.show(t)} becomes {got!r}", "converted", door=name)
        mon.ev("acceptances_agreed")
        if name in ("interpolation", "resolver_result", "interpolated_element"):
            continue
        k = rng.choice(["deepcopy", "pickle", "copy", "merge", "merge_into", "container", "create"])
        if k == "deepcopy":
            c2 = copy.deepcopy(root)
        elif k == "pickle":
            c2 = pickle.loads(pickle.dumps(root))
        elif k == "copy":
            c2 = copy.copy(root)
        elif k == "merge":
            c2 = OmegaConf.merge(root)
        elif k == "merge_into":
            c2 = OmegaConf.merge(root, root)
        elif k == "create":
            c2 = OmegaConf.create(root)
        else:
            c2 = None
            mon.check(
                same(read(OmegaConf.create(OmegaConf.to_container(root)), path), want), f"{name}: to_container changes {v!r}", "copy"
            )
        if c2 is not None:
            g2 = read(c2, path)
            mon.check(same(g2, want), f"{name} then {k}: {v!r} becomes {g2!r}", "copy")
            d1, d2 = snap(root), snap(c2)
            if k != "create":
                mon.check(d1 == d2, f"{name} then {k}: the copy differs from the original", "copy", a=d1, b=d2)
            mon.ev("copies_agreed")


BY = {
    int: nodes.IntegerNode,
    float: nodes.FloatNode,
    str: nodes.StringNode,
    bool: nodes.BooleanNode,
    bytes: nodes.BytesNode,
}


def as_node(v, t, rng):
    """A node that holds the value v."""
    x = rng.random()
    if x < 0.3:
        try:
            return UnionNode(v, T.hint(T.base(t)), is_optional=t[0] == "opt")
        except REJECT:
            pass
    if x < 0.7 and type(v) in BY:
        return BY[type(v)](v)
    return nodes.AnyNode(v)


def history(mon, t, g, rng):
    """A union field under a random history of writes: model is one value."""
    b = T.base(t)
    kind = rng.choice(["sc", "dict", "list"])
    start = T.gen_value(t, g)
    if kind == "sc":
        sc = T.make_sc(g, [("a", t, T.NODEF), ("z", ("int",), 3)])
        c = OmegaConf.structured(sc.cls)
        c.a = start
        k = "a"
    elif kind == "dict":
        c, k = DictConfig({"a": start}, key_type=str, element_type=T.hint(t)), "a"
    else:
        c, k = ListConfig([start], element_type=T.hint(t)), 0
    cur = start
    mon.log("history", kind, T.show(t), repr(start))
    for _ in range(rng.randint(3, 10)):
        x = rng.random()
        if x < 0.1:
            v = "???"
        elif x < 0.2:
            v = "${oc.env:OCV_NONE,zz}"
        else:
            v = member_values(t, g)
        op = rng.choice(["set", "attr", "merge", "update", "copy", "any", "reset", "node", "new", "new"])
        if op in ("attr", "merge", "update") and kind == "list":
            op = "lmerge" if not isinstance(v, (dict, list)) and op == "merge" else "set"
        if op in ("merge", "update") and isinstance(v, (dict, list)):
            op = "set"
        if op in ("node", "new") and isinstance(v, (dict, list, tuple)):
            op = "set"
        if op == "new" and kind == "sc":
            op = "node"
        mon.log(op, repr(v))
        if op == "copy":
            c = rng.choice([copy.deepcopy, copy.copy, lambda x: pickle.loads(pickle.dumps(x)), OmegaConf.merge])(c)
            continue
        if op == "reset":
            v = T.gen_value(t, g)
        try:
            want, bad = (v, False) if isinstance(v, str) and ("${" in v or v == "???") else (T.conv(t, v), False)
        except T.Bad:
            want, bad = None, True
        if op in ("merge", "lmerge") and v == "???" and op == "merge":
            want = cur  # a missing value does not overwrite
        try:
            if op in ("set", "reset", "any"):
                c[k] = v
            elif op == "node":
                c[k] = as_node(v, t, rng)
            elif op == "new":
                # the same place, created by the assignment of a value or of a node
                c2 = copy.deepcopy(c)
                n = v if rng.random() < 0.3 else as_node(v, t, rng)
                if kind == "list":
                    c2.pop(0)
                    if rng.random() < 0.5:
                        c2.append(n)
                    else:
                        c2.insert(0, n)
                else:
                    del c2[k]
                    if rng.random() < 0.5:
                        c2[k] = n
                    else:
                        c2.setdefault(k, n)
                c = c2
            elif op == "attr":
                c.a = v
            elif op == "merge":
                c.merge_with({"a": v})
            elif op == "lmerge":
                c.merge_with([v])
            else:
                OmegaConf.update(c, "a", v)
            exc = None
        except REJECT as e:
            exc = e
        now = raw(c)[k]
        if bad:
            mon.check(exc is not None, f"{op}: {v!r} is accepted as {T.show(t)}", "accepted")
            mon.check(same(now, cur), f"{op}: the rejected {v!r} changed the value {cur!r} to {now!r}", "lost")
            mon.ev("rejections_agreed")
        else:
            if exc is not None:
                mon.fail(f"{op}: {v!r} is rejected as {T.show(t)} (old value {cur!r}): {str(exc)[:200]}", "rejected")
            mon.check(same(now, want), f"{op}: {v!r} as {T.show(t)} becomes {now!r}, expected {want!r}", "converted")
            cur = want
            mon.ev("acceptances_agreed")
        n = c._get_node(k)
        mon.check(isinstance(n, UnionNode), f"{op}: the field is held by a {type(n).__name__}", "node")
    mon.stat("containers", len(containers(c)))
    assert b[0] == "union"


def lists(mon, t, g, rng):
    """A list of union elements is read, searched and reordered like a plain list of the same values."""
    m = [T.gen_value(t, g) for _ in range(rng.randint(0, 6))]
    m = [v for v in m if not (isinstance(v, str) and ("${" in v or v == "???")) and v == v]
    c = ListConfig(list(m), element_type=T.hint(t))
    mon.log("list", T.show(t), repr(m))
    for _ in range(rng.randint(3, 8)):
        op = rng.choice(["sort", "sort", "reverse", "in", "index", "count", "remove", "pop", "slice", "iter", "sset", "eq"])
        x = rng.choice(m) if m and rng.random() < 0.7 else T.gen_value(t, g)
        key, rev = rng.choice([None, str, repr, type_then]), rng.random() < 0.5
        a, b = sorted((rng.randint(0, len(m)), rng.randint(0, len(m))))
        ops = {
            "sort": lambda o: o.sort(key=key, reverse=rev), "reverse": lambda o: o.reverse(), "in": lambda o: x in o, "index": lambda o: o.index(x),
            "count": lambda o: o.count(x), "remove": lambda o: o.remove(x), "pop": lambda o: o.pop(a), "slice": lambda o: list(o[a:b]),
            "iter": lambda o: (list(o), list(reversed(o))), "sset": lambda o: o.__setitem__(slice(a, b), [x]), "eq": lambda o: o == m,
        }  # fmt: skip
        if op in ("in", "index", "count", "remove", "sset") and isinstance(x, str) and ("${" in x or x == "???"):
            continue
        before = list(m)
        mon.log(op, repr(x), a, b)
        out = []
        for o in (m, c):
            try:
                out.append((None, ops[op](o)))
            except Exception as e:
                out.append((type(e).__name__, None))
        if out[0][0] is not None and op == "sort":
            m[:] = before
        mon.check((out[0][0] is None) == (out[1][0] is None), f"{op} of a list of {T.show(t)}: {out[1]} instead of {out[0]}: {before!r}", "list")
        mon.check(same(out[0][1], out[1][1]), f"{op} of a list of {T.show(t)} gives {out[1][1]!r} instead of {out[0][1]!r}: {before!r}", "list")
        mon.check(same(raw(c), m), f"{op} of a list of {T.show(t)} leaves {raw(c)!r} instead of {m!r}", "list")
        for k in range(len(m)):
            n = c._get_node(k)
            mon.check(isinstance(n, UnionNode) and n._key() == k and n._get_parent() is c, f"{op}: element {k} is held by a {type(n).__name__}", "node")
        mon.ev("list_operations_agreed")


def type_then(x):
    return type(x).__name__, str(x)


def case(rng, mon, i):
    g = G(rng)
    u = T.gen_union(g)
    t = ("opt", u) if rng.random() < 0.4 else u
    if rng.random() < 0.5:
        agree(mon, t, g, rng)
        perm = list(u[1])
        rng.shuffle(perm)
        u2 = ("union", tuple(perm))
        agree(mon, ("opt", u2) if t[0] == "opt" else u2, g, rng)
    else:
        history(mon, t, g, rng)
        history(mon, t, g, rng)
        lists(mon, t, g, rng)


assert c07
