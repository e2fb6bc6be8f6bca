"""C21: conversion to plain containers and objects is faithful and detached."""
import copy
import dataclasses
import enum
import warnings

import attr
from omegaconf import MISSING, DictConfig, ListConfig, OmegaConf, SCMode
from omegaconf._utils import is_structured_config
from omegaconf.base import Container, Node, UnionNode
from omegaconf.errors import InterpolationResolutionError, MissingMandatoryValue, OmegaConfBaseException, ValidationError

from ocv import dyn
from ocv import types_ as T
from ocv.core import Skip
from ocv.gen import G, clone, same
from ocv.props import c14, c20
from ocv.snap import child, containers, first_diff, keys_of, nodes, raw, snap, special
from ocv.world import Thing, World

CASE_CPU_LIMIT = 120.0
setup = c20.setup


class Obj:
    """An expected instance."""

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def __repr__(self):
        return f"{self.cls.__name__}{self.fields!r}"


class Cfg:
    """An expected config, kept as it is."""

    def __init__(self, node):
        self.node = node

    def __repr__(self):
        return f"<{self.node!r}>"


class Deep(Exception):
    pass


class Model:
    """What the conversion of a node has to give, by reading it item by item."""

    def __init__(self, resolve, throw, names, mode):
        self.resolve, self.throw, self.names, self.mode = resolve, throw, names, mode
        self.errors = set()
        self.depth = 0

    def leaf(self, v):
        return v.name if self.names and isinstance(v, enum.Enum) else v

    def missing(self):
        if self.throw:
            self.errors.add("MissingMandatoryValue")
        return "???"

    def node(self, n):
        """A container node held by the config (not yet dereferenced)."""
        if n._is_none():
            return None
        if n._is_missing():
            return self.missing()
        if n._is_interpolation():
            assert not self.resolve
            return n._value()
        return self.container(n)

    def container(self, n):
        self.depth += 1
        if self.depth > 12:
            raise Deep
        try:
            if isinstance(n, DictConfig):
                ot = n._metadata.object_type
                sc = ot is not dict and is_structured_config(ot)
                if sc and self.mode == SCMode.DICT_CONFIG:
                    return Cfg(n)
                if sc and self.mode == SCMode.INSTANTIATE:
                    m = Model(True, True, False, SCMode.INSTANTIATE)
                    m.depth = self.depth
                    if any(not isinstance(k, str) for k in keys_of(n)):
                        self.errors.add("KeyValidationError")  # no attribute can have such a name
                    # a missing extra key is no attribute of the instance
                    ks = [k for k in keys_of(n) if k in T.BY_CLS[ot].types or not child(n, k)._is_missing()]
                    out = Obj(ot, {k: m.item(n, k) for k in ks})
                    self.errors |= m.errors
                    return out
                out = {}
                for k in keys_of(n):
                    v = self.item(n, k)
                    out[k.name if self.names and isinstance(k, enum.Enum) else k] = v
                return out
            return [self.item(n, i) for i in keys_of(n)]
        finally:
            self.depth -= 1

    def item(self, c, k):
        n = child(c, k)
        if n._is_missing():
            return self.missing()
        if n._is_interpolation():
            if not self.resolve:
                return raw(n)
            try:
                v = c[k]
            except RecursionError:
                raise Deep
            except OmegaConfBaseException as e:
                self.errors.add(type(e).__name__)
                return None
            if isinstance(v, Container):
                return None if v._is_none() else self.container(v)
            return self.leaf(v)
        if isinstance(n, UnionNode):
            return self.leaf(raw(n))
        if isinstance(n, Container):
            return self.node(n)
        return self.leaf(n._value())


def agree(a, b, path=""):
    """None, or where a (expected) and b (a result) differ."""
    if isinstance(a, Cfg):
        if type(b) is not DictConfig:
            return f"{path}: {type(b).__name__} where a config is to be kept"
        d = first_diff(snap(a.node), snap(b))
        return d and f"{path}: kept config differs: {d}"
    if isinstance(a, Obj):
        if type(b) is not a.cls:
            return f"{path}: {type(b).__name__} instead of an instance of {a.cls.__name__}"
        for k, v in a.fields.items():
            if not hasattr(b, k):
                return f"{path}.{k}: not set"
            d = agree(v, getattr(b, k), f"{path}.{k}")
            if d:
                return d
        # a field that was deleted from the config gets the default of the class
        extra = set(getattr(b, "__dict__", {})) - set(a.fields) - set(T.BY_CLS[a.cls].types)
        return f"{path}: unexpected attributes {sorted(extra)}" if extra else None
    if type(a) is not type(b):
        return f"{path}: {type(b).__name__} {b!r:.100} instead of {a!r:.100}"
    if type(a) is dict:
        if not same(list(a), list(b)):
            return f"{path}: keys {list(b)!r:.200} instead of {list(a)!r:.200}"
        for k in a:
            d = agree(a[k], b[k], f"{path}[{k!r}]")
            if d:
                return d
        return None
    if type(a) is list:
        if len(a) != len(b):
            return f"{path}: {len(b)} elements instead of {len(a)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = agree(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, Thing):
        return None if a is b else f"{path}: another object"
    return None if same(a, b) else f"{path}: {b!r:.100} instead of {a!r:.100}"


def mutable(v, out):
    """The mutable objects of a result (configs kept in it excluded)."""
    if type(v) is dict:
        out.append(v)
        for x in v.values():
            mutable(x, out)
    elif type(v) is list:
        out.append(v)
        for x in v:
            mutable(x, out)
    elif type(v) in T.BY_CLS or getattr(type(v), "_ocv_made", False):
        out.append(v)
        for x in vars(v).values():
            mutable(x, out)
    return out


def spoil(objs):
    """Change everything in a result."""
    for o in objs:
        if type(o) is dict:
            o.clear()
            o["spoiled"] = 1
        elif type(o) is list:
            del o[:]
            o.append("spoiled")
        else:
            for k in list(vars(o)):
                try:
                    setattr(o, k, "spoiled")
                except Exception:
                    pass


def convert(mon, cfg, node, path, resolve, throw, names, mode, api):
    what = f"{api} of {path} resolve={resolve} throw_on_missing={throw} enum_to_str={names} mode={mode.name if mode else None}"
    if api == "to_object":
        f = lambda: OmegaConf.to_object(node)
        m = Model(True, True, False, SCMode.INSTANTIATE)
    else:
        kw = dict(resolve=resolve, throw_on_missing=throw, enum_to_str=names)
        if mode is not None:
            kw["structured_config_mode"] = mode
        f = lambda: OmegaConf.to_container(node, **kw)
        m = Model(resolve, throw, names, mode or SCMode.DICT)
    mon.log(what)
    before = snap(cfg, ids=True)
    try:
        want = None
        if m.resolve and node._is_interpolation():
            t = node._maybe_dereference_node()
            if t is not None and not isinstance(t, Container):
                return None  # not what a user converts: reading it gives a value
            if t is None:
                m.errors.add("InterpolationResolutionError")
            else:
                want = m.node(t)
        else:
            want = m.node(node)
    except Deep:
        mon.stat("cyclic_or_no_attribute")
        return None
    except RecursionError:
        mon.stat("cyclic")
        return None
    try:
        got = f()
    except RecursionError:
        mon.stat("cyclic")
        return None
    except OmegaConfBaseException as e:
        mon.check(m.errors, f"{what} raised {type(e).__name__}: {e!s:.200}; every item reads", "raised")
        ok = type(e).__name__ in m.errors or (isinstance(e, InterpolationResolutionError) and any("Interpolation" in x for x in m.errors))
        mon.check(ok, f"{what} raised {type(e).__name__}: {e!s:.200}; reading item by item raises {sorted(m.errors)}", "error")
        mon.check(snap(cfg, ids=True) == before, f"failing {what} changed the config", "changed")
        mon.ev("errors_agreed")
        return None
    mon.check(not m.errors, f"{what} gave {got!r:.200}; reading item by item raises {sorted(m.errors)}", "no error")
    d = agree(want, got)
    mon.check(d is None, f"{what}: result differs at {d}", "content")
    mon.check(snap(cfg, ids=True) == before, f"{what} changed the config", "changed")
    # detached
    again = f()
    inner = {i for _, n in [((), cfg)] for i in c20.mutables(n)}
    a, b = mutable(got, []), mutable(again, [])
    for o in a:
        mon.check(id(o) not in inner, f"{what}: the result holds an object of the config: {o!r:.100}", "shared")
    ia = {id(o) for o in a}
    for o in b:
        mon.check(id(o) not in ia, f"{what}: two results share {o!r:.100}", "shared results")
    keep = copy.deepcopy(got) if not any(isinstance(x, Thing) for x in vars_of(got)) else None
    spoil(a)
    mon.check(snap(cfg, ids=True) == before, f"changing the result of {what} changed the config", "detached")
    d = agree(want, again)
    mon.check(d is None, f"{what}: changing one result changed another at {d}", "detached results")
    again = f()
    d = agree(want, again)
    mon.check(d is None, f"{what}: after changing an earlier result the conversion differs at {d}", "detached later")
    mon.ev("conversions_agreed")
    if type(got) is not str and a:
        mon.ev("containers_checked", len(a))
    return keep


def vars_of(v):
    if type(v) is dict:
        for x in v.values():
            yield from vars_of(x)
    elif type(v) is list:
        for x in v:
            yield from vars_of(x)
    else:
        yield v


def back(mon, rng, cfg, node, path):
    """A config created from the result is equal."""
    if special(node):
        return
    try:
        plain = OmegaConf.to_container(node)
    except OmegaConfBaseException:
        return
    new = OmegaConf.create(plain)
    mon.check(same(raw(new), raw(node)), f"creating a config from to_container at {path} gives {raw(new)!r:.300} instead of {raw(node)!r:.300}", "back")
    mon.ev("round_trips")
    # item views agree with item access
    for res in (None,):
        if isinstance(node, DictConfig):
            exp, err = [], None
            for k in keys_of(node):
                try:
                    exp.append((k, node[k]))
                except RecursionError:
                    return
                except Exception as e:
                    err = type(e).__name__
                    break
            views = {"items()": lambda: list(node.items()), "dict()": lambda: list(dict(node).items()), "values()": lambda: list(zip(keys_of(node), node.values()))}
        else:
            exp, err = [], None
            for k in keys_of(node):
                try:
                    exp.append((k, node[k]))
                except RecursionError:
                    return
                except Exception as e:
                    err = type(e).__name__
                    break
            views = {"list()": lambda: list(enumerate(list(node))), "unpacking": lambda: list(enumerate([*node]))}
        name, f = rng.choice(list(views.items()))
        try:
            got, e2 = f(), None
        except RecursionError:
            return
        except Exception as e:
            got, e2 = None, type(e).__name__
        mon.check((err is None) == (e2 is None), f"{name} at {path}: {e2 or 'ok'}; item access: {err or 'ok'}", "views")
        if err is None:
            mon.check(len(got) == len(exp), f"{name} at {path} has {len(got)} items instead of {len(exp)}", "views")
            for (k, v), (k2, v2) in zip(exp, got):
                same_ = isinstance(v2, Container) and first_diff(snap(v), snap(v2)) is None if isinstance(v, Container) else same(v, v2)
                mon.check(same(k, k2) and same_, f"{name} at {path} gives {k2!r}: {v2!r:.100}; item access {k!r}: {v!r:.100}", "views")
        mon.ev("views_agreed")


def instance(mon, cfg, w):
    """Instances convert back to the same content and types."""
    if w is None or w.t[0] != "sc":
        return
    try:
        o = OmegaConf.to_object(cfg)
        plain = OmegaConf.to_container(cfg, resolve=True)
    except (RecursionError, OmegaConfBaseException):
        return
    if type(o) not in T.BY_CLS:
        return
    for _, n in containers(cfg):
        t = n._metadata.object_type
        if t in T.BY_CLS and list(n.keys()) != list(T.BY_CLS[t].types):
            return  # extra keys are no fields
        if t in T.BY_CLS and str(n._metadata.ref_type).startswith(("typing.Dict", "Dict", "dict")):
            return  # merging gave a field typed Dict a class; assigning does not
    if "'???'" in repr(plain) or "${" in repr(plain):
        return
    try:
        new = OmegaConf.structured(o)
    except ValidationError:
        if "${" in repr(raw(cfg)):
            return  # a reference to a container of another type
        raise
    mon.check(same(raw(new), plain), f"structured(to_object(cfg)) holds {raw(new)!r:.300} instead of {plain!r:.300}", "instance")
    mon.ev("instances_back")


# --------------------------------------------------------------------------- fields of all kinds
def special_class(rng):
    """A class with aliases, fields that are no init parameters, keyword-only fields."""
    flavor = rng.choice(["dataclass", "attrs", "attrs", "define"])
    names = rng.sample(["a", "b", "_p", "_q", "c", "d"], rng.randint(1, 5))
    kinds = {}
    ns = {"__module__": dyn.__name__, "__annotations__": {}, "_ocv_made": True}
    log = []
    for n in names:
        t, d = rng.choice([(int, 1), (str, "s"), (float, 2.5), (list, [1]), (dict, {"k": 1})])
        init = rng.random() > 0.25
        kw = rng.random() < 0.3
        alias = rng.choice([None, None, "al_" + n.strip("_")]) if flavor != "dataclass" and init else None
        default = rng.choice(["value", "value", "missing"] + ([] if not init else ["none"]))
        ann = {list: "list", dict: "dict"}.get(t)
        from typing import Any, Dict, List

        ann = {list: List[int], dict: Dict[str, int]}.get(t, t)
        ns["__annotations__"][n] = ann
        if flavor == "dataclass":
            k = dict(init=init)
            k["kw_only"] = kw or default == "none"
            if default == "missing":
                k["default"] = MISSING
            elif default == "value":
                if t in (list, dict):
                    k["default_factory"] = lambda d=d: copy.copy(d)
                else:
                    k["default"] = d
            ns[n] = dataclasses.field(**k)
        else:
            k = dict(init=init, kw_only=kw or default == "none")
            if alias:
                k["alias"] = alias
            if default == "missing":
                k["default"] = MISSING
            elif default == "value":
                if t in (list, dict):
                    k["factory"] = lambda d=d: copy.copy(d)
                else:
                    k["default"] = d
            if flavor == "attrs":
                ns[n] = attr.ib(**k)
            else:
                ns[n] = attr.field(**k)
        kinds[n] = (t, init, alias, default)
        log.append(f"{n}: {t.__name__}{'' if init else ' init=False'}{' kw' if kw else ''}{' alias ' + alias if alias else ''} {default}")
    frozen = rng.random() < 0.15
    cls = type("Made", (), ns)
    if flavor == "dataclass":
        cls = dataclasses.dataclass(cls, frozen=frozen)
    elif flavor == "attrs":
        cls = attr.s(cls, frozen=frozen)
    else:
        cls = attr.frozen(cls) if frozen else attr.define(cls, slots=rng.random() < 0.5)
    cls.__module__ = dyn.__name__
    return cls, kinds, frozen, f"{flavor}{' frozen' if frozen else ''} " + ", ".join(log)


NEW = {int: [5, -1], str: ["x", ""], float: [1.5, 0.0], list: [[], [3, 4]], dict: [{}, {"z": 3}]}


def fields(rng, mon):
    cls, kinds, frozen, text = special_class(rng)
    mon.log("class", text)
    cfg = OmegaConf.structured(cls)
    if frozen:
        OmegaConf.set_readonly(cfg, False)
    want = {}
    mon.check(list(cfg) == list(kinds), f"fields {list(cfg)} instead of {list(kinds)}", "fields")
    for n, (t, init, alias, default) in kinds.items():
        d = {int: 1, str: "s", float: 2.5, list: [1], dict: {"k": 1}}[t]
        want[n] = d if default == "value" else "???"
        if rng.random() < 0.6:
            v = rng.choice(NEW[t])
            mon.log(f"set {n} = {v!r}")
            cfg[n] = v
            want[n] = v
    root = rng.choice([cfg, OmegaConf.create({"x": [cfg]})])
    before = snap(root, ids=True)
    bad = [n for n, (t, init, alias, default) in kinds.items() if init and want[n] == "???"]
    if frozen and not bad and any(not init and want[n] != "???" for n, (t, init, alias, default) in kinds.items()):
        return  # such fields of a frozen class cannot be set at all
    try:
        o = OmegaConf.to_object(root)
    except MissingMandatoryValue as e:
        mon.check(bad, f"to_object raised {e}", "fields")
        mon.check(any(b in str(e) for b in bad), f"the error does not name one of {bad}: {e!s:.200}", "fields")
        mon.ev("missing_fields")
        return
    mon.check(not bad, f"to_object gave {o!r} although {bad} are missing", "fields")
    if root is not cfg:
        mon.check(type(o) is dict and list(o) == ["x"] and type(o["x"]) is list, f"to_object gave {o!r}", "fields")
        o = o["x"][0]
    mon.check(type(o) is cls, f"to_object gave {o!r}", "fields")
    for n, v in want.items():
        if v == "???":
            # a missing field that is no init parameter keeps what the class gives it
            mon.check(getattr(o, n, MISSING) == MISSING, f"field {n} is {getattr(o, n)!r}", "fields")
        else:
            mon.check(same(getattr(o, n), v), f"field {n} is {getattr(o, n)!r} instead of {v!r}", "fields")
    mon.check(snap(root, ids=True) == before, "to_object changed the config", "changed")
    mon.ev("instances_checked")


def objects(rng, mon):
    """Objects of unknown types are passed through."""
    a, b = Thing(), Thing()
    plain = {"a": a, "b": {"c": [b, 1, a]}, "d": "${b.c}", "e": "${a}"}
    cfg = OmegaConf.create(plain, flags={"allow_objects": True})
    for _ in range(3):
        convert(mon, cfg, cfg, (), rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5, rng.choice(list(SCMode)), "to_container")
    mon.ev("objects_checked")


class Level(enum.IntEnum):
    LOW = 1
    HIGH = 20


class Word(str, enum.Enum):
    A = "a b"
    B = "B"


class Perm(enum.IntFlag):
    R = 4
    W = 2


MIXED = [Level.LOW, Level.HIGH, Word.A, Word.B, Perm.R, Perm.W]


def mixins(rng, mon):
    """Enums that are also of another type."""

    def tree(d):
        x = rng.random()
        if d and x < 0.3:
            return [tree(d - 1) for _ in range(rng.randint(0, 3))]
        if d and x < 0.6:
            return {rng.choice(MIXED + ["x", "y", 1]): tree(d - 1) for _ in range(rng.randint(0, 3))}
        return rng.choice(MIXED + [1, "a b", None, "???"])

    def names(t):
        if isinstance(t, enum.Enum):
            return t.name
        if type(t) is dict:
            return {names(k): names(v) for k, v in t.items()}
        return [names(v) for v in t] if type(t) is list else t

    plain = {"a": tree(3), "b": [tree(2)], Level.HIGH: tree(1)}
    cfg = OmegaConf.create(clone(plain))
    if rng.random() < 0.4:
        plain["t"] = {k: rng.choice(list(Level)) for k in rng.sample(list(Word), 2)}
        cfg.t = DictConfig(dict(plain["t"]), key_type=Word, element_type=Level)
    mon.log("mixed enums", repr(plain))
    got = OmegaConf.to_container(cfg, resolve=rng.random() < 0.5)
    mon.check(same(got, plain), f"conversion of {plain!r} gives {got!r}", "mixin")
    got = OmegaConf.to_container(cfg, enum_to_str=True)
    mon.check(same(got, names(plain)), f"conversion of {plain!r} with enum_to_str gives {got!r}", "mixin")
    text = OmegaConf.to_yaml(cfg)
    mon.check(text == OmegaConf.to_yaml(OmegaConf.create(names(plain))), f"enums are not written by name in {text!r}", "mixin")
    mon.ev("mixed_enums")


def bad(rng, mon):
    for v in (1, "x", None, [1], {"a": 1}, rng):
        for f in (OmegaConf.to_container, OmegaConf.to_object):
            try:
                r = f(v)
            except ValueError:
                continue
            mon.fail(f"{f.__name__}({v!r}) gave {r!r}", "bad")
    mon.ev("bad_inputs")


def case(rng, mon, i):
    T.reset()
    x = rng.random()
    if x < 0.2:
        return fields(rng, mon)
    if x < 0.23:
        return objects(rng, mon)
    if x < 0.24:
        return bad(rng, mon)
    if x < 0.28:
        return mixins(rng, mon)
    w, cfg = c20.build(rng, mon)
    for _ in range(4):
        if rng.random() < 0.5:
            path, node = (), cfg
        else:
            cs = [(p, n) for p, parent, n in nodes(cfg) if isinstance(n, Container)]
            path, node = rng.choice(cs)
        api = rng.choice(["to_container"] * 3 + ["to_object"])
        mode = rng.choice([None, SCMode.DICT, SCMode.DICT_CONFIG, SCMode.INSTANTIATE])
        convert(mon, cfg, node, path, rng.random() < 0.6, rng.random() < 0.4, rng.random() < 0.3, mode, api)
        if rng.random() < 0.5:
            back(mon, rng, cfg, node, path)
    instance(mon, cfg, w)
