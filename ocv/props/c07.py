"""C07: one conversion table, whichever way a value arrives."""
import enum
import pathlib

from omegaconf import (
    AnyNode,
    BooleanNode,
    BytesNode,
    DictConfig,
    EnumNode,
    FloatNode,
    IntegerNode,
    ListConfig,
    ListMergeMode,
    OmegaConf,
    PathNode,
    StringNode,
)
from omegaconf.errors import (
    InterpolationValidationError,
    KeyValidationError,
    UnsupportedValueType,
    ValidationError,
)

from ocv import types_ as T
from ocv.gen import G, clone, same
from ocv.snap import child, raw

REJECT = (ValidationError, UnsupportedValueType, KeyValidationError)
NODES = {"int": IntegerNode, "float": FloatNode, "str": StringNode, "bool": BooleanNode, "bytes": BytesNode, "path": PathNode}
_result = [None]


def setup(scratch):
    OmegaConf.register_new_resolver("ocv7", lambda: _result[0])


def valid(t, g):
    while True:
        v = T.gen_value(t, g)
        if v is not None and v != "???":
            return v


def doors(t, v, g, rng):
    """(name, thunk returning (root, path to the value))"""
    b = T.base(t)
    prim = T.is_prim(b)
    single = prim or b[0] == "union"
    h = T.hint(t)
    out = []

    def door(f):
        out.append((f.__name__, f))

    sc0 = T.make_sc(g, [("x", ("int",), 1), ("a", t, T.NODEF)])
    start = rng.choice(["valid", "missing", "inter", "none"])

    def new():
        if rng.random() < 0.5:
            c = OmegaConf.structured(sc0.cls)
        else:
            c = OmegaConf.structured(sc0.cls(x=2))
        if start == "valid":
            c.a = T.build(t, valid(t, g))
        elif start == "inter":
            c.a = "${x}"
        elif start == "none" and t[0] == "opt":
            c.a = None
        return c

    if prim:

        @door
        def node_constructor():
            if b[0] == "enum":
                n = EnumNode(b[1], v, is_optional=t[0] == "opt")
            else:
                n = NODES[b[0]](v, is_optional=t[0] == "opt")
            return OmegaConf.create({"n": n}), "n"

        @door
        def node_set_value():
            opt = t[0] == "opt"
            w = valid(t, g)
            n = EnumNode(b[1], w, is_optional=opt) if b[0] == "enum" else NODES[b[0]](w, is_optional=opt)
            c = OmegaConf.create({"n": n})
            c.n = v
            return c, "n"

    if single:

        @door
        def structured_default():
            return OmegaConf.structured(T.make_sc(g, [("a", t, v)], rng.choice(["dataclass", "attrs"])).cls), "a"

    @door
    def structured_instance():
        i = sc0.cls()
        i.a = v
        return OmegaConf.structured(i), "a"

    @door
    def nested_instance():
        i = sc0.cls()
        i.a = v
        return OmegaConf.create({"q": [i]}), "q[0].a"

    @door
    def attribute():
        c = new()
        c.a = v
        return c, "a"

    @door
    def item():
        c = new()
        c["a"] = v
        return c, "a"

    @door
    def nested_attribute():
        c = OmegaConf.create({"p": {"q": sc0.cls}})
        c.p.q.a = v
        return c, "p.q.a"

    @door
    def update_key():
        c = new()
        OmegaConf.update(c, "a", v, merge=False)
        return c, "a"

    @door
    def dict_update():
        c = new()
        c.update({"a": v})
        return c, "a"

    @door
    def dict_creation():
        return DictConfig({"k": v}, key_type=str, element_type=h), "k"

    @door
    def dict_new_key():
        c = DictConfig({}, key_type=str, element_type=h)
        c["k"] = v
        return c, "k"

    @door
    def dict_key():
        c = DictConfig({"k": valid(t, g)}, key_type=str, element_type=h)
        c.k = v
        return c, "k"

    @door
    def dict_missing_key():
        c = DictConfig({"k": "???"}, key_type=str, element_type=h)
        c.k = v
        return c, "k"

    @door
    def dict_setdefault():
        c = DictConfig({}, key_type=str, element_type=h)
        c.setdefault("k", v)
        return c, "k"

    @door
    def list_creation():
        return ListConfig([valid(t, g), v], element_type=h), "[1]"

    @door
    def list_append():
        c = ListConfig([], element_type=h)
        c.append(v)
        return c, "[0]"

    @door
    def list_insert():
        c = ListConfig([valid(t, g)], element_type=h)
        c.insert(0, v)
        return c, "[0]"

    @door
    def list_item():
        c = ListConfig([valid(t, g), valid(t, g)], element_type=h)
        c[rng.choice([1, -1])] = v
        return c, "[1]"

    @door
    def list_slice():
        c = ListConfig([valid(t, g)], element_type=h)
        c[0:1] = [v]
        return c, "[0]"

    @door
    def list_extend():
        c = ListConfig([valid(t, g)], element_type=h)
        if rng.random() < 0.5:
            c.extend([v])
        else:
            c += [v]
        return c, "[1]"

    if single and not isinstance(v, (dict, list)):

        @door
        def any_node():
            c = new()
            c.a = AnyNode(v)
            return c, "a"

        @door
        def merge():
            src = {"a": v}
            if rng.random() < 0.5:
                src = OmegaConf.create(src)
            return OmegaConf.merge(new(), src), "a"

        @door
        def unsafe_merge():
            return OmegaConf.unsafe_merge(new(), {"a": v}), "a"

        @door
        def merge_with():
            c = OmegaConf.create({"q": sc0.cls})
            c.merge_with({"q": {"a": v}})
            return c, "q.a"

        @door
        def update_merge():
            c = new()
            OmegaConf.update(c, "a", v, merge=True)
            return c, "a"

        @door
        def merge_dict():
            c = DictConfig({"k": valid(t, g)} if rng.random() < 0.5 else {}, key_type=str, element_type=h)
            return OmegaConf.merge(c, {"k": v}), "k"

        @door
        def merge_list():
            c = ListConfig([valid(t, g)], element_type=h)
            if rng.random() < 0.5:
                return OmegaConf.merge(c, [v]), "[0]"
            return OmegaConf.merge(c, [v], list_merge_mode=ListMergeMode.EXTEND), "[1]"

        @door
        def interpolation():
            c = OmegaConf.create({"x": v, "s": sc0.cls})
            c.s.a = "${x}"
            return c, "s.a"

        @door
        def resolver_result():
            _result[0] = v
            c = new()
            c.a = "${ocv7:}"
            return c, "a"

        @door
        def interpolated_element():
            if rng.random() < 0.5:
                return OmegaConf.create({"x": v, "d": DictConfig({"k": "${x}"}, key_type=str, element_type=h)}), "d.k"
            return OmegaConf.create({"x": v, "d": ListConfig(["${x}"], element_type=h)}), "d[0]"

        @door
        def resolved():
            c = OmegaConf.create({"x": v, "s": sc0.cls})
            c.s.a = "${x}"
            OmegaConf.resolve(c)
            return c, "s.a"

    return out


def read(root, path):
    cur = root
    for part in path.replace("[", ".[").split("."):
        if part == "":
            continue
        if part.startswith("["):
            cur = cur[int(part[1:-1])]
        else:
            cur = cur[part]
    return raw(cur) if isinstance(cur, (DictConfig, ListConfig)) else cur


def gen(g, rng):
    x = rng.random()
    t = T.gen_prim(g)
    if x > 0.75:
        kt = rng.choice([("str",), ("int",), ("enum", T.Color), ("float",), ("bool",), ("bytes",)])
        t = ("list", t) if rng.random() < 0.5 else ("dict", kt, t)
    if rng.random() < 0.35:
        t = ("opt", t)
    return t


def value(t, g, rng):
    b = T.base(t)
    if b[0] == "list" and rng.random() < 0.8:
        v = [T.odd_value(g) for _ in range(rng.randint(0, 2))]
        return tuple(v) if rng.random() < 0.2 else v
    if b[0] == "dict" and rng.random() < 0.8:
        return {
            (T.gen_key(b[1], g) if rng.random() < 0.7 else g.key()): T.odd_value(g) for _ in range(rng.randint(0, 2))
        }
    if rng.random() < 0.25:
        return clone(T.gen_value(t, g))
    return T.near_value(g, False) if rng.random() < 0.1 else T.odd_value(g)


def special(v):
    if isinstance(v, str):
        return v == "???" or "${" in v
    if isinstance(v, dict):
        return any(special(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return any(special(x) for x in v)
    return False


def case(rng, mon, i):
    g = G(rng)
    t = gen(g, rng)
    for _ in range(2):
        v = value(t, g, rng)
        if special(v):
            continue
        try:
            want = T.conv(t, v)
            bad = False
        except T.Bad:
            want, bad = None, True
        mon.log(T.show(t), repr(v), "->", "reject" if bad else repr(want))
        near = not isinstance(v, (bool, int, float, str, bytes, pathlib.Path, enum.Enum, list, tuple, dict, type(None)))
        if near and not bad:
            continue  # whether any object can become a string is not promised
        for name, f in doors(t, v, g, rng):
            got = None
            try:
                root, path = f()
                got = read(root, path)
                exc = None
            except REJECT as e:
                exc = e
            except InterpolationValidationError as e:
                exc = e
            if bad:
                mon.check(
                    exc is not None, f"{name}: {v!r} is accepted as {T.show(t)} and gives {got!r}", "accepted", door=name
                )
                mon.ev("rejections_agreed")
            else:
                if exc is not None:
                    mon.fail(
                        f"{name}: {v!r} is rejected as {T.show(t)}: {str(exc)[:200]}", "rejected", door=name, expected=want
                    )
                mon.check(
                    same(got, want), f"{name}: {v!r} as {T.show(t)} gives {got!r}, expected {want!r}", "converted", door=name
                )
                mon.ev("conversions_agreed")


__all__ = ["case", "child"]
