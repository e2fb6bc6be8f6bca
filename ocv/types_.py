"""Type descriptions: generation, typing hints, reference conversion and conformance of live nodes."""
import dataclasses
import datetime
import decimal
import enum
import fractions
import pathlib
from typing import Any, Dict, List, Optional, Union

import attr

from omegaconf import DictConfig, ListConfig
from omegaconf.base import UnionNode

from . import dyn
from .gen import MISSING, Color, Shape, clone
from .snap import child, keys_of

PRIMS = ["int", "float", "str", "bool", "bytes", "path", "enum"]
PY = {"int": int, "float": float, "str": str, "bool": bool, "bytes": bytes, "path": pathlib.Path}
NODEF = object()


class Bad(Exception):
    """The reference conversion rejects the value."""


BY_CLS = {}


class SC:
    """A generated structured config class."""

    def __init__(self, name, fields, cls, flavor, base=None):
        self.name, self.fields, self.cls, self.flavor, self.base = name, fields, cls, flavor, base
        self.types = {n: t for n, t, _ in fields}
        BY_CLS[cls] = self

    def defaults(self):
        return {n: (MISSING if d is NODEF else clone(d)) for n, t, d in self.fields}

    def __repr__(self):
        return f"{self.flavor} {self.name}(" + ", ".join(
            f"{n}: {show(t)}" + ("" if d is NODEF else f" = {d!r}") for n, t, d in self.fields
        ) + ")"


def show(t):
    k = t[0]
    if k == "enum":
        return t[1].__name__
    if k == "opt":
        return f"Optional[{show(t[1])}]"
    if k == "union":
        return "Union[" + ", ".join(show(x) for x in t[1]) + "]"
    if k == "list":
        return f"List[{show(t[1])}]"
    if k == "dict":
        return f"Dict[{show(t[1])}, {show(t[2])}]"
    if k == "sc":
        return t[1].name
    return k


def hint(t):
    k = t[0]
    if k in PY:
        return PY[k]
    if k == "any":
        return Any
    if k == "enum":
        return t[1]
    if k == "opt":
        return Optional[hint(t[1])]
    if k == "union":
        return Union[tuple(hint(x) for x in t[1])]
    if k == "list":
        return List[hint(t[1])]
    if k == "dict":
        return Dict[hint(t[1]), hint(t[2])]
    if k == "sc":
        return t[1].cls
    raise AssertionError(t)


def gen_prim(g):
    k = g.r.choice(PRIMS)
    return ("enum", g.r.choice([Color, Shape])) if k == "enum" else (k,)


def gen_union(g):
    n = g.r.choice([2, 2, 3, 4])
    kinds = g.r.sample(PRIMS, n)
    return ("union", tuple(("enum", Color) if k == "enum" else (k,) for k in kinds))


def gen_keytype(g):
    k = g.r.choice(["str", "str", "str", "int", "enum", "float", "bool", "bytes", "any"])
    return ("enum", Color) if k == "enum" else (k,)


def gen_type(g, depth=2, scs=(), any_=True, unions=True):
    """A random type; scs are the structured classes it may mention."""
    r = g.r
    x = r.random()
    if depth > 0 and x < 0.18:
        t = ("list", gen_type(g, depth - 1, scs, any_, unions))
    elif depth > 0 and x < 0.36:
        t = ("dict", gen_keytype(g), gen_type(g, depth - 1, scs, any_, unions))
    elif scs and x < 0.52:
        t = ("sc", r.choice(scs))
    elif any_ and x < 0.6:
        return ("any",)
    elif unions and x < 0.72:
        t = gen_union(g)
    else:
        t = gen_prim(g)
    if r.random() < 0.3:
        return ("opt", t)
    return t


_count = [0]


def reset():
    """Forget the classes of the previous case."""
    for sc in BY_CLS.values():
        dyn.__dict__.pop(sc.name, None)
    BY_CLS.clear()
    _count[0] = 0


def make_sc(g, fields, flavor=None, frozen=False, base=None, extra=None):
    """fields: [(name, type, plain default or NODEF)]"""
    flavor = flavor or g.r.choice(["dataclass", "attrs"])
    _count[0] += 1
    name = f"{'D' if flavor == 'dataclass' else 'A'}{_count[0]}"
    bases = (base.cls,) if base is not None else ()
    if flavor == "dataclass":
        fs = []
        for n, t, d in fields:
            if d is NODEF:
                fs.append((n, hint(t), dataclasses.field(default=MISSING)))
            elif plain_default(t, d):
                fs.append((n, hint(t), dataclasses.field(default=d)))
            else:
                fs.append((n, hint(t), dataclasses.field(default_factory=lambda t=t, d=d: build(t, d))))
        cls = dataclasses.make_dataclass(name, fs, frozen=frozen, bases=bases, namespace={"__module__": dyn.__name__})
        cls.__module__ = dyn.__name__
    else:
        at = {}
        for n, t, d in fields:
            if d is NODEF:
                at[n] = attr.ib(type=hint(t), default=MISSING)
            elif plain_default(t, d):
                at[n] = attr.ib(type=hint(t), default=d)
            else:
                at[n] = attr.ib(type=hint(t), default=attr.Factory(lambda t=t, d=d: build(t, d)))
        cls = attr.make_class(name, at, bases=bases or (object,), frozen=frozen)
        cls.__module__ = dyn.__name__
        cls.__annotations__ = {n: hint(t) for n, t, _ in fields}
    setattr(dyn, name, cls)
    allf = list(fields)
    if base is not None:
        names = {n for n, _, _ in fields}
        over = {n: (n, t, d) for n, t, d in fields}
        allf = [over.get(n, (n, t, d)) for n, t, d in base.fields]
        allf += [f for f in fields if f[0] not in {n for n, _, _ in base.fields}]
        assert names <= {n for n, _, _ in allf}
    return SC(name, allf, cls, flavor, base)


def plain_default(t, d):
    return not isinstance(d, (list, dict)) or d == MISSING


def build(t, v):
    """The Python object a user would supply for plain content v of type t (instances for structured classes)."""
    if v is None or (isinstance(v, str) and (v == MISSING or "${" in v)):
        return v
    k = t[0]
    if k == "opt":
        return build(t[1], v)
    if k == "list":
        return [build(t[1], x) for x in v]
    if k == "dict":
        return {kk: build(t[2], x) for kk, x in v.items()}
    if k == "sc":
        sc = t[1]
        return sc.cls(**{n: build(sc.types[n], x) for n, x in v.items()})
    return clone(v)


def gen_sc(g, depth=2, scs=(), nfields=None, flavor=None, any_=True, unions=True, frozen=False):
    names = g.r.sample(["a", "b", "c", "d", "e", "f0", "g_1"], nfields or g.r.randint(1, 4))
    fields = []
    for n in names:
        t = gen_type(g, depth, scs, any_, unions)
        d = NODEF if g.chance(0.2) else gen_value(t, g)
        fields.append((n, t, d))
    return make_sc(g, fields, flavor, frozen)


def gen_scs(g, n=2, **kw):
    """A few classes, later ones may hold earlier ones."""
    out = []
    for _ in range(n):
        out.append(gen_sc(g, scs=tuple(out), **kw))
    return out


def gen_value(t, g, special=0.0):
    """Plain content that is valid for t and already has its exact type."""
    r = g.r
    if special and g.chance(special):
        return MISSING
    k = t[0]
    if k == "opt":
        return None if g.chance(0.25) else gen_value(t[1], g, special)
    if k == "int":
        return g.int_()
    if k == "float":
        return g.float_()
    if k == "str":
        return g.str_()
    if k == "bool":
        return g.chance(0.5)
    if k == "bytes":
        return g.bytes_()
    if k == "path":
        return g.path_()
    if k == "enum":
        return r.choice(list(t[1]))
    if k == "union":
        return gen_value(r.choice(t[1]), g)
    if k == "any":
        return g.tree(depth=2, width=3, keys="s")
    if k == "list":
        return [gen_value(t[1], g, special) for _ in range(r.randint(0, 3))]
    if k == "dict":
        return {gen_key(t[1], g): gen_value(t[2], g, special) for _ in range(r.randint(0, 3))}
    if k == "sc":
        return {n: gen_value(ft, g, special) for n, ft in t[1].types.items()}
    raise AssertionError(t)


def gen_key(t, g):
    k = t[0]
    return {
        "str": lambda: g.key("s"),
        "int": lambda: g.key("i"),
        "float": lambda: g.key("f"),
        "bool": lambda: g.key("b"),
        "bytes": lambda: g.key("B"),
        "enum": lambda: g.r.choice(list(t[1])),
        "any": lambda: g.key(),
    }[k]()


def conv_key(t, k):
    n = t[0]
    if n == "any":
        if isinstance(k, (str, bytes, int, enum.Enum, float, bool)):
            return k
        raise Bad(k)
    if n == "bool" and type(k) in (int, float, bool) and k in (0, 1):
        return bool(k)
    if n == "enum":
        return conv(t, k)
    if isinstance(k, PY[n]):
        return k
    raise Bad(k)


def conv(t, v, strict=False):
    """Reference conversion of an assigned primitive/plain value to type t; Bad if it must be rejected."""
    k = t[0]
    if isinstance(v, str) and (v == MISSING or "${" in v):
        return v
    if k == "opt":
        return None if v is None else conv(t[1], v, strict)
    if k == "any":
        if type(v) is dict:
            return {conv_key(("any",), kk): conv(t, x) for kk, x in v.items()}
        if type(v) in (list, tuple):
            return [conv(t, x) for x in v]
        if v is None or isinstance(v, (bool, int, float, str, bytes, pathlib.Path, enum.Enum)):
            return v
        raise Bad(v)
    if v is None:
        raise Bad(v)
    if k == "union":
        for m in t[1]:
            try:
                return conv(m, v, strict=True)
            except Bad:
                pass
        raise Bad(v)
    if strict:
        if k == "enum":
            ok = isinstance(v, t[1])
        elif k == "path":
            ok = isinstance(v, pathlib.Path)
        else:
            ok = type(v) is PY[k]
        if not ok:
            raise Bad(v)
        return v
    try:
        if k == "int":
            if type(v) in (int, str):
                return int(v)
        elif k == "float":
            if type(v) in (int, str, float):
                return float(v)
        elif k == "bool":
            if isinstance(v, bool):
                return v
            if type(v) is int:
                return v != 0
            if type(v) is str:
                low = v.lower()
                if low in ("yes", "y", "on", "true"):
                    return True
                if low in ("no", "n", "off", "false"):
                    return False
                return int(v) != 0
        elif k == "str":
            if not isinstance(v, (dict, list, tuple, bytes)):
                return str(v)
        elif k == "bytes":
            if isinstance(v, bytes):
                return v
        elif k == "path":
            if isinstance(v, (str, pathlib.Path)):
                return pathlib.Path(v)
        elif k == "enum":
            et = t[1]
            if isinstance(v, et):
                return v
            if type(v) is int:
                return et(v)
            if type(v) is str:
                pre = et.__name__ + "."
                return et[v[len(pre) :] if v.startswith(pre) else v]
        elif k == "list":
            if type(v) in (list, tuple):
                return [conv(t[1], x) for x in v]
        elif k == "dict":
            if type(v) is dict:
                return {conv_key(t[1], kk): conv(t[2], x) for kk, x in v.items()}
        elif k == "sc":
            raise Bad("structured")
    except (ValueError, KeyError):
        raise Bad(v) from None
    raise Bad(v)


def odd_value(g):
    """Arbitrary primitive or small container, biased to values near the type boundaries."""
    r = g.r
    k = r.random()
    if k < 0.4:
        return r.choice(
            ["1", "0", "-3", "1.0", "1e3", "0x10", "1_000", " 7 ", "true", "Off", "YES", "y", "t", "", "RED", "Color.RED",
             "red", "Color.red", "Size.RED", ".RED", "Shape.RED", "x.Color.RED", "Color.Color.RED", "Color.", "Color.A",
             "RED ", "color.RED", " true", "off ", " Yes ", "true\n", "tru", "nO", "1.", "+1", "-0", "1__0", "0b1", "0o7", "1e400", "1j", "True", "on", "N", "OFF ", "1 ",
             "A", "Shape.A", "ROUND", "nan", "inf", "-inf", "abc", "None", "null", "10", "2", "a/../b", "a//b", "./a", "a/", "//a", "~/x", "$HOME", "a\\b", "/a/./b", 0, 1, 2,
             3, -1, 10, 1.0, 0.0, 2.5, True, False, None, b"", b"abc", b"1", Color.RED, Color.BLUE, Shape.A, Shape.ROUND,
             pathlib.Path("a"), pathlib.Path("1"), [], {}, [1], {"a": 1}, 10**30]
        )  # fmt: skip
    if k < 0.85:
        return g.prim()
    return g.tree(depth=1, width=2, root=r.choice(["dict", "list"]))


class OddInt(enum.IntEnum):
    ONE = 1
    RED = 2


class OddStr(str):
    pass


def near_value(g, subs=True):
    """A value of a type that is close to a supported one."""
    return g.r.choice(
        ([OddInt.ONE, OddInt.RED, OddStr("1"), OddStr("RED"), OddStr("x")] if subs else []) + [pathlib.PurePosixPath("a"), pathlib.PurePosixPath("1"), decimal.Decimal("1"), decimal.Decimal("1.5"), fractions.Fraction(1, 2), frozenset([1]),
         1 + 0j, range(2), slice(1), NotImplemented, Ellipsis, datetime.date(2020, 1, 1)]
    )  # fmt: skip


def is_prim(t):
    return t[0] in PRIMS


def base(t):
    return t[1] if t[0] == "opt" else t


def conforms(node, t, path="", allow_special=True):
    """None, or a description of how the live node breaks its declared type."""
    opt = t[0] in ("opt", "any")
    b = base(t)
    if b[0] == "any":
        return None
    val = node._value() if not isinstance(node, (DictConfig, ListConfig)) else node.__dict__["_content"]
    if isinstance(node, UnionNode) and val is not None and not isinstance(val, str):
        val = val._value()
    if val is None:
        return None if opt else f"{path}: None in a field declared {show(t)}"
    if isinstance(val, str) and (val == MISSING or "${" in val):
        return None
    k = b[0]
    if k in ("dict", "sc") and not isinstance(node, DictConfig):
        return f"{path}: {type(node).__name__} {val!r} in a field declared {show(t)}"
    if k == "list" and not isinstance(node, ListConfig):
        return f"{path}: {type(node).__name__} {val!r} in a field declared {show(t)}"
    if k == "list":
        for i in keys_of(node):
            e = conforms(child(node, i), b[1], f"{path}[{i}]")
            if e:
                return e
        return None
    if k == "dict":
        for kk in keys_of(node):
            try:
                if conv_key(b[1], kk) is not kk and b[1][0] != "any":
                    return f"{path}: key {kk!r} in a dict declared {show(t)}"
            except Bad:
                return f"{path}: key {kk!r} in a dict declared {show(t)}"
            e = conforms(child(node, kk), b[2], f"{path}[{kk!r}]")
            if e:
                return e
        return None
    if k == "sc":
        ot = node._metadata.object_type
        if not (isinstance(ot, type) and issubclass(ot, b[1].cls)):
            return f"{path}: object type {ot} in a field declared {show(t)}"
        types = BY_CLS.get(ot, b[1]).types
        for n in types:
            if n not in keys_of(node):
                return f"{path}: field {n} of {show(t)} disappeared"
        for n, ft in types.items():
            e = conforms(child(node, n), ft, f"{path}.{n}")
            if e:
                return e
        return None
    if isinstance(node, (DictConfig, ListConfig)):
        return f"{path}: a container in a field declared {show(t)}"
    if k == "union":
        if not any(_exact(m, val) for m in b[1]):
            return f"{path}: {val!r} ({type(val).__name__}) in a field declared {show(t)}"
        return None
    if not _exact(b, val):
        return f"{path}: {val!r} ({type(val).__name__}) in a field declared {show(t)}"
    return None


def _exact(t, v):
    if t[0] == "enum":
        return isinstance(v, t[1])
    if t[0] == "path":
        return isinstance(v, pathlib.Path)
    return type(v) is PY[t[0]]


def is_path_like(a, b):
    """Same value up to the documented conversion to a path."""
    import pathlib

    return isinstance(a, pathlib.Path) and str(a) == str(pathlib.Path(b)) if isinstance(b, (str, pathlib.Path)) else False
