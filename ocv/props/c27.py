"""C27: errors name the right key, parent and object."""
import enum
import re

from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.base import Container, UnionNode
from omegaconf.errors import (
    ConfigIndexError,
    ConfigKeyError,
    InterpolationResolutionError,
    KeyValidationError,
    MissingMandatoryValue,
    OmegaConfBaseException,
    ReadonlyConfigError,
    ValidationError,
)

from ocv import types_ as T
from ocv.core import Skip
from ocv.gen import G
from ocv.props import c20
from ocv.snap import child, containers, keys_of, nodes, raw, special
from ocv.world import Thing

PLACE = re.compile(r"\$(FULL_KEY|KEY_TYPE|KEY|VALUE_TYPE|VALUE|REF_TYPE|OBJECT_TYPE)\b")
BAD_D = ["zz", "a", "x.y", 1, 2.5, True, b"q", "0", None, (1,)]
BAD_L = [99, -99, "a", None, 1.5, 0]
STORES = ("set", "setattr", "setdefault", "append", "insert", "extend", "iadd")


def setup(scratch):
    c20.setup(scratch)


def fk(root, path, mine=True):
    s, c = "", root
    for n, k in enumerate(path):
        ch = child(c, k)
        if isinstance(c, ListConfig):
            s += f"[{k}]"
        else:
            own = ch._key()
            name = kname(own if mine and own == k else k)  # 1 == True
            s += f".{name}" if n else name
        c = ch
    return s


def kname(k):
    return k.name if isinstance(k, enum.Enum) else str(k)


def item_key(root, p, c, k):
    base = fk(root, p)
    if isinstance(c, ListConfig):
        return f"{base}[{k}]"
    return f"{base}.{kname(k)}" if base else kname(k)


def spellings(c, k):
    """The key as given and as the container normalizes it."""
    out = [k]
    if isinstance(c, DictConfig) and k in keys_of(c):
        out += [x for x in (child(c, k)._key(), next(x for x in keys_of(c) if x == k)) if x == k]
    if isinstance(c, DictConfig) and isinstance(c._metadata.key_type, type) and issubclass(c._metadata.key_type, enum.Enum):
        for m in c._metadata.key_type:
            if type(k) is str and k in (m.name, f"{type(m).__name__}.{m.name}") or type(k) is int and m.value == k or m is k:
                out.append(m)
    elif isinstance(c, DictConfig) and c._metadata.key_type is bool and type(k) is int:
        out += [True, False]
    elif isinstance(c, DictConfig) and c._metadata.key_type in (int, float):
        if isinstance(k, (int, float, str)):
            try:
                out.append(c._metadata.key_type(k))
            except Exception:
                pass
    return out


def attempt(f):
    try:
        f()
    except RecursionError as e:
        raise Skip from e
    except Exception as e:
        return e
    return None


def recursed(e):
    return "RecursionError" in str(e) or "recursion" in str(e)


def common(mon, what, e):
    mon.check(isinstance(e, OmegaConfBaseException), f"{what}: raised {type(e).__name__}: {str(e)[:300]}", "class")
    msg = str(e)
    mon.check(not PLACE.search(msg), f"{what}: unfilled placeholder in {msg[:300]!r}", "placeholder")
    mon.check(e.full_key is not None, f"{what}: no full key in {type(e).__name__}: {msg[:300]!r}", "fullkey")
    if e.parent_node is not None:
        mon.check(isinstance(e.full_key, str), f"{what}: full key is {e.full_key!r}", "fullkey")
    mon.check(f"full_key: {e.full_key}" in msg, f"{what}: message {msg[:300]!r} does not show the full key {e.full_key!r}", "message")
    mon.check(e.msg == msg, f"{what}: .msg is {e.msg!r}, message is {msg!r}", "message")


def containing(mon, what, e, c):
    """The error is about an item of c."""
    mon.check(e.parent_node is c, f"{what}: {type(e).__name__} names another parent ({type(e.parent_node).__name__} at {e.parent_node._get_full_key(None) if e.parent_node is not None else None!r})", "parent", got=raw(e.parent_node))
    mon.check(e.object_type == OmegaConf.get_type(c), f"{what}: object type {e.object_type!r}, expected {OmegaConf.get_type(c)!r}", "object")
    mon.ev("parents_agreed")


def builtin_class(mon, what, op, L, c, k, e):
    """Errors can be caught as what the same mistake raises on a dict or list."""
    want = None
    if isinstance(e, (MissingMandatoryValue, ReadonlyConfigError, InterpolationResolutionError, KeyValidationError)):
        return
    if op in ("get", "pop") and L == "D" and not isinstance(e, ValidationError):
        want = (KeyError, TypeError) if op == "pop" else KeyError
    elif op in ("attr", "delattr"):
        want = AttributeError
    elif op in ("get", "pop") and L == "L" and type(k) is int:
        want = IndexError
    elif op == "set" and L == "L" and type(k) is int and not -len(c) <= k < len(c) and not isinstance(e, ValidationError):
        want = (IndexError, ValueError)
    elif isinstance(e, ValidationError):
        want = ValueError
    if want is not None:
        mon.check(isinstance(e, want), f"{what}: {type(e).__name__} is not a {want}", "builtin")
        mon.ev("builtin_classes")


def single(rng, g, mon, w, cfg, p, c):
    L = "L" if isinstance(c, ListConfig) else "D"
    ks = keys_of(c)
    k = rng.choice(ks) if ks and rng.random() < 0.65 else rng.choice(BAD_D if L == "D" else BAD_L)
    v = rng.choice([T.odd_value(g), Thing(), None, T.odd_value(g), {1: 2}, [None], {"zz": Thing()}, [[1, Thing()]]])
    ops = {
        "get": lambda: c[k],
        "set": lambda: c.__setitem__(k, v),
        "del": lambda: c.__delitem__(k),
        "pop": lambda: c.pop(k),
        "c.get": lambda: c.get(k),
    }
    if L == "D":
        ops.update({
            "attr": lambda: getattr(c, str(k)),
            "setattr": lambda: setattr(c, str(k), v),
            "delattr": lambda: delattr(c, str(k)),
            "setdefault": lambda: c.setdefault(k, v),
            "is_missing": lambda: OmegaConf.is_missing(c, k),
        })  # fmt: skip
    else:
        ops.update({
            "append": lambda: c.append(v),
            "insert": lambda: c.insert(k, v),
            "extend": lambda: c.extend([v]),
            "iadd": lambda: c.__iadd__([v]),
        })  # fmt: skip
    op = rng.choice(sorted(ops))
    if op in ("attr", "setattr", "delattr"):
        k = str(k)
    n = len(c)
    pre = c._get_node(k, validate_access=False) if L == "D" and isinstance(k, (str, int, float, bool, bytes, enum.Enum)) else None
    what = f"{op} {k!r} {v!r:.80} of {fk(cfg, p)!r}"
    e = attempt(ops[op])
    if e is None or recursed(e):
        mon.stat("no_error")
        return
    mon.log(what, "->", type(e).__name__)
    if op == "del" and L == "L" and type(e) in (IndexError, TypeError):
        mon.ev("plain_list_errors")
        return
    common(mon, what, e)
    if op in ("append", "extend", "iadd"):
        k = n
    if isinstance(k, tuple) or k is None or k == "" or isinstance(k, enum.Enum) and str(k) in keys_of(c):
        return
    builtin_class(mon, what, op, L, c, k, e)
    keys = spellings(c, k)
    if op == "insert" and type(k) is int:
        keys.append(min(n, k) if k >= 0 else max(0, n + k))
    exp = [item_key(cfg, p, c, s) for s in keys]
    got = e.full_key
    if op in STORES and e.parent_node is None:
        # errors of creating the container of a typed slot only carry its key
        mon.check(kname(got) in [kname(s) for s in keys] or any(str(got).startswith(x) for x in exp) or isinstance(v, (dict, list)),
                  f"{what}: {type(e).__name__} names {got!r}, expected {exp}", "fullkey")  # fmt: skip
        mon.ev("slot_errors")
        return
    if got in exp:
        mon.ev(f"items_named:{op}{L}")
        mon.ev("items_named")
        if op in STORES and isinstance(v, (dict, list)) and e.parent_node is not c:
            return
        containing(mon, what, e, c)
        if op in STORES + ("get", "attr", "pop", "c.get") and e.child_node is not pre and L == "D" and pre is not None:
            mon.fail(f"{what}: child_node is {e.child_node!r:.100}, the item is {pre!r:.100}", "child")
        if pre is not None:
            mon.ev("children_named")
        mon.check(any(type(e.key) is type(s) and e.key == s for s in keys), f"{what}: key is {e.key!r}", "key")
    else:
        deeper = any(got.startswith(x + ".") or got.startswith(x + "[") for x in exp)
        mon.check(op in STORES and isinstance(v, (dict, list)) and deeper, f"{what}: {type(e).__name__} names {got!r}, expected {exp}", "fullkey", config=raw(cfg))
        mon.ev("deeper_named")


def awkward(cfg):
    """Keys whose text in a full key is ambiguous."""
    for _, c in containers(cfg):
        if not special(c) and isinstance(c, DictConfig):
            ks = keys_of(c)
            if "" in ks or any(isinstance(k, enum.Enum) and str(k) in ks for k in ks):
                return True
    return False


def items(cfg):
    out = {}
    for p, parent, n in nodes(cfg):
        if p and not isinstance(parent, UnionNode):
            for name in {fk(cfg, p), fk(cfg, p, False)}:
                out.setdefault(name, []).append((parent, p[-1], n))
    return out


def whole(rng, mon, cfg, p, c):
    L = isinstance(c, ListConfig)
    ops = {
        "to_container": lambda: OmegaConf.to_container(c, resolve=True, throw_on_missing=True),
        "to_container missing": lambda: OmegaConf.to_container(c, resolve=False, throw_on_missing=True),
        "to_yaml": lambda: OmegaConf.to_yaml(c, resolve=True),
        "to_object": lambda: OmegaConf.to_object(c),
        "missing_keys": lambda: OmegaConf.missing_keys(c),
    }
    if L:
        ops["iterate"] = lambda: list(c)
        ops["count"] = lambda: c.count(Thing())
        ops["extend list"] = lambda: OmegaConf.create([1]).extend(c)
    else:
        ops["items"] = lambda: list(c.items())
        ops["values"] = lambda: list(c.values())
    op = rng.choice(sorted(ops))
    what = f"{op} of {fk(cfg, p)!r}"
    table = items(cfg)
    if awkward(cfg):
        return
    e = attempt(ops[op])
    if e is None or recursed(e) or not isinstance(e, (MissingMandatoryValue, InterpolationResolutionError)):
        mon.stat("no_error")
        return
    mon.log(what, "->", type(e).__name__)
    common(mon, what, e)
    cands = table.get(e.full_key, [])
    mon.check(bool(cands), f"{what}: {type(e).__name__} names {e.full_key!r}, no such item: {str(e)[:300]}", "fullkey", config=raw(cfg))
    right = []
    for parent, k, n in cands:
        r = attempt(lambda: parent[k])
        if r is not None and (isinstance(e, type(r)) or isinstance(r, type(e))):
            right.append(parent)
    mon.check(bool(right), f"{what}: {type(e).__name__} names {e.full_key!r}, which can be read: {str(e)[:300]}", "fullkey", config=raw(cfg))
    mon.ev("whole_named")
    mon.ev(f"whole_named:{op}")
    mon.check(any(e.parent_node is x for x in right), f"{what}: {e.full_key!r} is right but the parent is another {type(e.parent_node).__name__}", "parent")
    par = next(x for x in right if e.parent_node is x)
    containing(mon, what, e, par)


def by_path(rng, g, mon, cfg, p, c):
    """select and update name an item on the path."""
    ks = keys_of(c)
    k = rng.choice(ks) if ks and rng.random() < 0.6 else rng.choice(["zz", 99])
    for s in p + (k,):
        if not (type(s) is int and s >= 0 or type(s) is str and s.isidentifier()):
            return
    root = cfg
    path = item_key(cfg, p, c, k)
    if rng.random() < 0.3 and not (k in ks and child(c, k)._is_interpolation()):
        path += rng.choice([".zz", "[0]", ".a.b"])
    op = rng.choice(["select", "update", "update", "update merge=False"])
    v = rng.choice([T.odd_value(g), Thing(), None])
    what = f"{op} {path!r} {v!r:.80}"
    table = items(cfg)
    if op == "select":
        e = attempt(lambda: OmegaConf.select(root, path, throw_on_missing=rng.random() < 0.5))
    else:
        e = attempt(lambda: OmegaConf.update(root, path, v, merge=not op.endswith("False")))
    if e is None or recursed(e) or not isinstance(e, OmegaConfBaseException):
        mon.stat("no_error")
        return
    if op == "select" and not isinstance(e, (MissingMandatoryValue, InterpolationResolutionError)):
        return
    mon.log(what, "->", type(e).__name__)
    common(mon, what, e)
    got = e.full_key
    if op == "select" and got in table:
        ok = False
        for parent, kk, n in table[got]:
            r = attempt(lambda: parent[kk])
            ok = ok or r is not None and (isinstance(e, type(r)) or isinstance(r, type(e)))
        mon.check(ok, f"{what}: {type(e).__name__} names {got!r}, which can be read", "fullkey", config=raw(cfg))
        mon.ev("select_named")
        return
    if e.parent_node is None:
        mon.ev("slot_errors")
        return
    def flat(x):
        return x.replace("[", ".").replace("]", "")

    path, got = flat(path), flat(e.full_key)
    onpath = got in (path, "." + path) or path.startswith(got + ".") or got.startswith(path + ".") or got == ""
    mon.check(onpath or e.full_key in table, f"{what}: {type(e).__name__} names {got!r}: {str(e)[:300]}", "fullkey", config=raw(cfg))
    mon.ev("paths_named")


NOTC = re.compile(r"node `(.*?)` is not a container and thus cannot contain `(.*?)`")


def reachable(cfg, p):
    """The path can be spelled in an interpolation."""
    c = cfg
    for s in p:
        if isinstance(c, ListConfig) and type(s) is not int or isinstance(c, DictConfig) and not (type(s) is str and s.isidentifier()):
            return False
        c = child(c, s)
    return True


def beneath(rng, mon, cfg):
    """A path that goes on below a plain value: the message names the value and the step that fails."""
    leaves = []
    for p, parent, n in nodes(cfg):
        if not p or isinstance(n, Container) or isinstance(parent, UnionNode) or isinstance(n, UnionNode):
            continue
        if n._is_none() or n._is_missing() or n._is_interpolation():
            continue
        if reachable(cfg, p):
            leaves.append(p)
    if not leaves:
        return
    p = rng.choice(leaves)
    rest = [rng.choice(["zz", "q", "0", "b_1"]) for _ in range(rng.randint(1, 4))]
    path = ".".join(map(str, ("cfg",) + p))
    full = ".".join([path] + rest)
    outer = OmegaConf.create({"cfg": cfg})
    at = rng.choice(["x", "y.x", "y[1]"])
    OmegaConf.update(outer, at.replace("[1]", ""), [1, "${%s}" % full] if at == "y[1]" else "${%s%s}" % ("." if at == "x" and rng.random() < 0.3 else "", full))
    what = f"interpolation {full!r} at {at}"
    e = attempt(lambda: OmegaConf.select(outer, at))
    if recursed(e):
        return
    mon.check(isinstance(e, InterpolationResolutionError), f"{what}: no error below a plain value but {e!r:.200}", "beneath", config=raw(cfg))
    mon.check(e.full_key == at, f"{what}: names {e.full_key!r}", "beneath")
    common(mon, what, e)
    m = NOTC.search(str(e))
    mon.check(m is not None and m.group(1) == path and m.group(2) == rest[0], f"{what}: the message does not name {path!r} and {rest[0]!r}: {str(e)[:300]!r}", "beneath", config=raw(cfg))
    mon.ev("below_values_named")


def case(rng, mon, i):
    try:
        w, cfg = c20.build(rng, mon)
    except RecursionError as e:
        raise Skip from e
    g = G(rng)
    mon.log("config", raw(cfg))
    for _ in range(14):
        p, c = rng.choice(containers(cfg))
        if special(c) or any(k == "" for k in p):
            continue
        r = rng.random()
        if r < 0.06:
            beneath(rng, mon, cfg)
        elif r < 0.6:
            single(rng, g, mon, w, cfg, p, c)
        elif r < 0.85:
            whole(rng, mon, cfg, p, c)
        else:
            by_path(rng, g, mon, cfg, p, c)
