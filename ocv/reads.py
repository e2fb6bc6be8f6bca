"""A library of reading operations with deterministic, comparable outcomes."""
import copy
import io
import pickle
import re
import types

from omegaconf import DictConfig, ListConfig, OmegaConf, SCMode
from omegaconf.base import Container, Node, UnionNode

from ocv.snap import child, containers, keys_of, nodes, raw, snap, special

ADDR = re.compile(r"0x[0-9a-fA-F]{4,}")
FLAGS = ("readonly", "struct", "allow_objects")
_DBG = []


def debugger():
    if not _DBG:
        try:
            from pydevd_plugins.extensions.pydevd_plugin_omegaconf import OmegaConfUserResolver

            _DBG.append(OmegaConfUserResolver())
        except ImportError:
            _DBG.append(None)
    return _DBG[0]


def norm(s):
    return ADDR.sub("0x", s)


def describe(v, depth=0):
    """Comparable form of a result."""
    if isinstance(v, Node):
        return ("node", norm(repr(snap(v))))
    if depth < 4:
        if type(v) in (list, tuple):
            return (type(v).__name__, [describe(x, depth + 1) for x in v])
        if type(v) is dict:
            return ("dict", [(describe(k, depth + 1), describe(x, depth + 1)) for k, x in v.items()])
        if type(v) is set:
            return ("set", sorted(map(repr, v)))
    return (type(v).__name__, norm(repr(v)))


def attempt(f):
    """Outcome of a call: its result or its error."""
    try:
        r = f()
        if isinstance(r, types.GeneratorType) or (hasattr(r, "__next__") and not isinstance(r, Node)):
            r = list(r)
        return ("ok", describe(r))
    except RecursionError:
        return ("RecursionError",)
    except Exception as e:
        return ("error", type(e).__name__, norm(str(e)))


CHANGED = []


def given(arg, f):
    """f(arg), noting when it changes arg."""
    mine = list(arg)
    out = f(mine)
    if mine != arg:
        CHANGED.append((arg, mine))
    return out


def locate(root, path):
    for k in path:
        root = child(root, k)
    return root


def _select_path(path):
    out = ""
    for k in path:
        out += f"[{k}]" if isinstance(k, int) else (f".{k}" if out else str(k))
    return out


class Reads:
    """Draws read operations for configs equal to the given one."""

    def __init__(self, rng, cfg, whole=True):
        self.r = rng
        self.cfg = cfg
        self.whole = whole

    def plain(self):
        r = self.r
        return r.choice([None, 0, 1, "a", "x", "???", 3.5, True, "${a}", [], {}, [1], {"a": 1}, b"x", ...])

    def key(self, c):
        r = self.r
        ks = keys_of(c)
        if ks and r.random() < 0.75:
            return r.choice(ks)
        if isinstance(c, ListConfig):
            return r.choice([0, -1, 1, 99, -99, "a", "0", None, 1.5, "???"])
        return r.choice(["a", "b", "zz", "", "a.b", 0, 1, True, 1.5, None, b"a", "__len__", "_content", "???"])

    def draw(self):
        """(label, function of a root equal to the config)"""
        r = self.r
        cs = containers(self.cfg)
        if r.random() < 0.12:
            vs = [(p, n) for p, par, n in nodes(self.cfg) if not isinstance(n, Container) and not isinstance(par, UnionNode)]
            if vs:
                p, n = r.choice(vs)
                return self.on_value(p, n)
        p, c = r.choice(cs) if r.random() < 0.6 else cs[0]
        return self.on_container(p, c)

    def on_value(self, p, n):
        r = self.r
        x = self.plain()
        ops = {
            "str": str,
            "repr": repr,
            "==": lambda n: (n == x, n != x),
            "== itself": lambda n: n == n,
            "hash": lambda n: (hash(n), None)[1],
            "deepcopy": copy.deepcopy,
            "pickle": lambda n: pickle.loads(pickle.dumps(n)),
            "is_missing": lambda n: (n._is_missing(), n._is_none(), n._is_interpolation(), n._is_optional()),
            "deref": lambda n: n._dereference_node(),
            "maybe deref": lambda n: n._maybe_dereference_node(),
            "flags": lambda n: [n._get_flag(f) for f in FLAGS],
            "full key": lambda n: n._get_full_key(None),
            "root": lambda n: type(n._get_root()).__name__,
            "get_type": OmegaConf.get_type,
            "create": lambda n: OmegaConf.create({"q": n}),
            "debugger str": lambda n: debugger().get_str(n) if debugger() else None,
            "debugger dict": lambda n: debugger().get_dictionary(n) if debugger() else None,
            "dir": lambda n: len(dir(n)) and None,
        }
        name = r.choice(sorted(ops))
        f = ops[name]
        return f"{name} of the value node at {p}", lambda root: f(locate(root, p))

    def on_container(self, p, c):
        r = self.r
        k = self.key(c)
        k2 = self.key(c)
        x = self.plain()
        kw = dict(resolve=r.random() < 0.5)
        ckw = dict(
            resolve=r.random() < 0.5,
            enum_to_str=r.random() < 0.5,
            throw_on_missing=r.random() < 0.3,
            structured_config_mode=r.choice(list(SCMode)),
        )
        ops = {
            "item": lambda c: c[k],
            "item 2": lambda c: (c[k], c[k2]),
            "attr": lambda c: getattr(c, str(k)),
            "hasattr": lambda c: hasattr(c, str(k)),
            "get": lambda c: c.get(k),
            "get default": lambda c: c.get(k, x),
            "in": lambda c: k in c,
            "in value": lambda c: x in c,
            "len": lambda c: (len(c), c.is_empty() if hasattr(c, "is_empty") else None),
            "bool": lambda c: bool(c),
            "iter": lambda c: list(c),
            "iter part": lambda c: next(iter(c)),
            "reversed": lambda c: list(reversed(c)),
            "repr": repr,
            "str": str,
            "hash": lambda c: (hash(c), None)[1],
            "==": lambda c: (c == x, c != x, x == c),
            "== self": lambda c: c == c,
            "== copy": lambda c: c == copy.deepcopy(c),
            "dir": lambda c: sorted(s for s in dir(c) if isinstance(s, str) and not s.startswith("_")) and sorted(map(str, dir(c)))[:60],
            "to_yaml": lambda c: OmegaConf.to_yaml(c, **kw),
            "to_yaml sorted": lambda c: OmegaConf.to_yaml(c, sort_keys=True, **kw),
            "save": lambda c: OmegaConf.save(c, io.StringIO(), **kw),
            "to_container": lambda c: OmegaConf.to_container(c, **ckw),
            "to_object": OmegaConf.to_object,
            "is_missing": lambda c: OmegaConf.is_missing(c, k),
            "is_interpolation": lambda c: (OmegaConf.is_interpolation(c, k), OmegaConf.is_interpolation(c)),
            "kinds": lambda c: (OmegaConf.is_config(c), OmegaConf.is_dict(c), OmegaConf.is_list(c), c._is_none(), c._is_missing()),
            "get_type": lambda c: norm(str(OmegaConf.get_type(c))),
            "get_type key": lambda c: norm(str(OmegaConf.get_type(c, k))),
            "flags": lambda c: [c._get_flag(f) for f in FLAGS] + [OmegaConf.is_readonly(c), OmegaConf.is_struct(c)],
            "missing_keys": lambda c: sorted(OmegaConf.missing_keys(c)),
            "cache": lambda c: type(OmegaConf.get_cache(c)).__name__,
            "copy": copy.copy,
            "copy method": lambda c: c.copy(),
            "deepcopy": copy.deepcopy,
            "pickle": lambda c: pickle.loads(pickle.dumps(c)),
            "create": lambda c: OmegaConf.create(c),
            "create in": lambda c: OmegaConf.create({"q": c}),
            "create list": lambda c: OmegaConf.create([c, c]),
            "DictConfig": lambda c: DictConfig(c),
            "ListConfig": lambda c: ListConfig(c),
            "merge source": lambda c: OmegaConf.merge({}, {"q": c}),
            "merge": lambda c: OmegaConf.merge(c),
            "merge twice": lambda c: OmegaConf.merge(c, c),
            "merge more": lambda c: OmegaConf.merge(c, {"zz_new": 1} if isinstance(c, DictConfig) else [1]),
            "merge fails": lambda c: OmegaConf.merge(c, x),
            "assign elsewhere": lambda c: _assign(c),
            "update elsewhere": lambda c: _update(c),
            "append elsewhere": lambda c: _append(c),
            "full key": lambda c: (c._get_full_key(k), c._get_full_key(None)),
            "debugger": lambda c: _debug(c),
            "resolve copy": lambda c: _resolved(c),
            "isinstance": lambda c: (isinstance(c, dict), isinstance(c, list)),
            "node": lambda c: c._get_node(k),
        }
        if isinstance(c, DictConfig):
            mk = [q for q in (k, k2, "zz") if r.random() < 0.6]
            ops.update(
                {
                    "keys": lambda c: list(c.keys()),
                    "values": lambda c: list(c.values()),
                    "items": lambda c: list(c.items()),
                    "items_ex": lambda c: list(c.items_ex(resolve=kw["resolve"])),
                    "unpack": lambda c: {**c},
                    "dict": lambda c: dict(c),
                    "masked_copy": lambda c: given(mk, lambda ks: OmegaConf.masked_copy(c, ks)),
                    "items_ex keys": lambda c: given(mk, lambda ks: list(c.items_ex(resolve=False, keys=ks))),
                    "del missing": lambda c: c.__class__.__contains__(c, k2),
                }
            )
        else:
            sl = slice(r.choice([None, 0, 1, -1, 5]), r.choice([None, 0, 1, -1, 5]), r.choice([None, 1, 2, -1]))
            ops.update(
                {
                    "slice": lambda c: c[sl],
                    "index": lambda c: c.index(x),
                    "count": lambda c: c.count(x),
                    "add": lambda c: c + c,
                    "add plain": lambda c: c + [1],
                    "radd": lambda c: [1] + c,
                    "get index": lambda c: c.get(k, x),
                    "_iter_ex": lambda c: list(c._iter_ex(resolve=kw["resolve"])),
                    "join": lambda c: ",".join(map(str, c)),
                }
            )
        if self.whole:
            sp = _select_path(p + (k,)) if isinstance(k, (str, int)) and type(k) is not bool else _select_path(p)
            sel = dict(throw_on_missing=r.random() < 0.3, throw_on_resolution_failure=r.random() < 0.6)
            dflt = r.random() < 0.3
            ops["select"] = lambda c: OmegaConf.select(c._get_root(), sp, **(dict(sel, default="dflt") if dflt else sel))
            ops["select rel"] = lambda c: OmegaConf.select(c, "." * r2 + (str(k) if isinstance(k, str) else "a"), **sel)
            r2 = r.choice([0, 1, 2, 3])
        name = r.choice(sorted(ops))
        f = ops[name]
        arg = f" key {k!r}" if name in ("item", "attr", "get", "in", "get default", "is_missing") else ""
        return f"{name}{arg} of the container at {p}", lambda root: f(locate(root, p))


def _assign(c):
    o = OmegaConf.create({"x": None})
    o.x = c
    return o


def _update(c):
    o = OmegaConf.create({})
    OmegaConf.update(o, "x.y", c)
    return o


def _append(c):
    o = OmegaConf.create([])
    o.append(c)
    o.insert(0, c)
    return o


def _debug(c):
    d = debugger()
    if d is None:
        return None
    out = [d.get_str(c), {k: describe(v) for k, v in d.get_dictionary(c).items()}]
    for k in keys_of(c):
        out.append(describe(d.resolve(c, k)))
    return out


def _resolved(c):
    cc = copy.deepcopy(c)
    OmegaConf.resolve(cc)
    return cc
