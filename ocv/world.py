"""Configs of every kind and random operations on them, shared by the history-based checks."""
import pathlib

from omegaconf import (
    AnyNode,
    BooleanNode,
    BytesNode,
    DictConfig,
    EnumNode,
    FloatNode,
    IntegerNode,
    ListConfig,
    ListMergeMode,
    OmegaConf,
    PathNode,
    StringNode,
)

from omegaconf.base import UnionNode

from . import types_ as T
from .gen import Color, G, clone, walk
from .snap import child, containers, keys_of, nodes


class Thing:
    """Not a supported value."""

    def __repr__(self):
        return "Thing()"


class World:
    def __init__(self, rng, mon, inter=0.1, missing=0.08, flags=0.0, kinds="ustdl"):
        self.g = g = G(rng)
        self.r = rng
        self.mon = mon
        self.inter, self.missing = inter, missing
        self.scs = []
        k = rng.choice(kinds)
        if k == "u":
            self.t = ("any",)
            tree = self.spice(g.tree(depth=3, keys="sssifbBE", root=rng.choice(["dict", "dict", "list"])))
            mon.log("create", tree)
            self.cfg = OmegaConf.create(tree)
        elif k in "st":
            self.scs = T.gen_scs(g, rng.choice([1, 2, 2, 3]), depth=2)
            sc = self.scs[-1]
            self.t = ("sc", sc)
            mon.log("structured " + "; ".join(map(repr, self.scs)))
            if g.chance(0.5):
                self.cfg = OmegaConf.structured(sc.cls)
            else:
                v = {n: T.gen_value(ft, g, special=missing) for n, ft in sc.types.items()}
                mon.log("value", v)
                self.cfg = OmegaConf.structured(T.build(self.t, v))
        elif k == "d":
            if g.chance(0.3):
                self.scs = T.gen_scs(g, 1, depth=1)
            kt, et = T.gen_keytype(g), T.gen_type(g, 2, tuple(self.scs))
            self.t = ("dict", kt, et)
            v = T.gen_value(self.t, g, special=missing)
            mon.log("typed dict", T.show(self.t), str(self.scs), v)
            self.cfg = DictConfig(T.build(self.t, v), key_type=T.hint(kt), element_type=T.hint(et))
        else:
            if g.chance(0.3):
                self.scs = T.gen_scs(g, 1, depth=1)
            et = T.gen_type(g, 2, tuple(self.scs))
            self.t = ("list", et)
            v = T.gen_value(self.t, g, special=missing)
            mon.log("typed list", T.show(self.t), str(self.scs), v)
            self.cfg = ListConfig(T.build(self.t, v), element_type=T.hint(et))
        if flags:
            self.add_flags(flags)

    def spice(self, tree):
        """Put interpolations and '???' into a plain tree."""
        if not (self.inter or self.missing):
            return tree
        strs = [p for p, v in walk(tree) if p and all(isinstance(x, (str, int)) and not isinstance(x, bool) for x in p)]
        ident = [p for p in strs if all(not isinstance(x, str) or x.isidentifier() for x in p)]

        def f(v):
            if type(v) is dict:
                return {k: f(x) for k, x in v.items()}
            if type(v) is list:
                return [f(x) for x in v]
            if self.g.chance(self.missing):
                return "???"
            if self.g.chance(self.inter):
                return self.interp(ident)
            return v

        return f(tree)

    def interp(self, paths=None):
        r = self.r
        if paths is None:
            paths = [p for p, n in containers(self.cfg)]
            paths = [p for p in paths if p and all(isinstance(x, str) and x.isidentifier() for x in p)]
        if paths and r.random() < 0.8:
            p = r.choice(paths)
            return "${" + ".".join(map(str, p)) + "}"
        return r.choice(["${nope}", "${a}", "${.b}", "${..c}", "x${a}y", "${oc.env:OCV_NOPE,1}", "${oc.create:{z:1}}"])

    def add_flags(self, p):
        for path, n in containers(self.cfg):
            for f in ("readonly", "struct"):
                if self.g.chance(p):
                    v = self.g.chance(0.75)
                    n._set_flag(f, v)
                    self.mon.log(f"flag {f}={v} at {path}")

    # --- values
    own = 0.0  # how often a node of the config itself is assigned

    def leaves(self):
        return [(p, n) for p, parent, n in nodes(self.cfg) if p and not isinstance(parent, UnionNode)]

    def value(self, t=None):
        """Anything a user may try to assign; returns (value, description)."""
        r, g = self.r, self.g
        if self.own and g.chance(self.own):
            p, n = r.choice(containers(self.cfg) + self.leaves())
            return n, f"node at {p}"
        x = r.random()
        if t is not None and x < 0.3:
            v = T.build(t, T.gen_value(t, g, special=0.03))
            if type(v) in (dict, list) and v and g.chance(0.25):
                # valid all but one element
                v = clone(v)
                k = r.choice(list(v)) if isinstance(v, dict) else r.randrange(len(v))
                v[k] = r.choice([Thing(), "x y", -1, None, [], {}, "???", {"a": Thing()}])
            if type(v) in (dict, list) and g.chance(0.4):
                if "<ocv.world" in repr(v) or "Thing()" in repr(v):
                    return v, repr(v)
                return OmegaConf.create(v), f"config {v!r}"
            return v, repr(v)
        if x < 0.45:
            v = T.odd_value(g)
            return v, repr(v)
        if x < 0.55:
            v = g.tree(depth=2, width=3, keys="ssi")
            return v, repr(v)
        if x < 0.6:
            return None, "None"
        if x < 0.64:
            return "???", "'???'"
        if x < 0.72:
            v = self.interp()
            return v, repr(v)
        if x < 0.74:
            v = r.choice(["${", "${a", "${a.}", "${x:${", "${.}", "${a}${"])
            return v, repr(v)
        if x < 0.78:
            v = r.choice([Thing(), {"a": 1, "b": Thing()}, [1, Thing()], {"a": {"b": [Thing()]}}, {1, 2}, {None: 1}, 1j])
            return v, repr(v)
        if x < 0.86 and self.scs:
            sc = r.choice(self.scs)
            if g.chance(0.4):
                return sc.cls, f"class {sc.name}"
            v = T.gen_value(("sc", sc), g)
            return T.build(("sc", sc), v), f"{sc.name} instance {v!r}"
        if x < 0.93:
            v = g.tree(depth=2, width=3, keys="ssi", root=r.choice(["dict", "list"]))
            v = self.spice(v)
            return OmegaConf.create(v), f"config {v!r}"
        if x < 0.96:
            p, n = r.choice(containers(self.cfg))
            return n, f"node at {p}"
        mk = r.choice(
            [
                lambda: IntegerNode(r.choice([1, "2", None])),
                lambda: StringNode(r.choice(["s", 1, None, "${a}", "???"])),
                lambda: FloatNode(1.5),
                lambda: BooleanNode(True),
                lambda: BytesNode(b"x"),
                lambda: PathNode("p"),
                lambda: EnumNode(Color, Color.RED),
                lambda: AnyNode(r.choice([1, "x", None, "${a}", "???"])),
                lambda: IntegerNode(3, is_optional=False),
            ]
        )
        v = mk()
        return v, f"{type(v).__name__}({v._value()!r})"

    def pick(self):
        cs = containers(self.cfg)
        self.last = self.r.choice(cs)
        return self.last

    def type_at(self, path):
        """Declared type at a path, or None when undeclared."""
        t = self.t
        for k in path:
            t = T.base(t)
            if t[0] == "sc":
                t = t[1].types.get(k)
            elif t[0] == "dict":
                t = t[2]
            elif t[0] == "list":
                t = t[1]
            else:
                return None
            if t is None:
                return None
        return t

    # --- operations: (description, thunk)
    def single(self):
        """A random mutation of one container through one call."""
        r, g = self.r, self.g
        path, c = self.pick()
        at = f"at {list(path)}: "
        if isinstance(c, DictConfig):
            ks = keys_of(c)
            x = r.random()
            if ks and x < 0.6:
                k = r.choice(ks)
            elif x < 0.9:
                k = g.key()
            else:
                k = r.choice([None, (1,), "a.b", Thing(), 2.5, "RED"])
            tv = self.type_at(path + (k,))
            v, d = self.value(tv)
            op = r.choice("set set set set attr del pop popd setdefault update updatef clear".split())
            if op == "set":
                return f"{at}[{k!r}] = {d}", lambda: c.__setitem__(k, v)
            if op == "attr":
                k = k if isinstance(k, str) else g.ident()
                return f"{at}.{k} = {d}", lambda: setattr(c, k, v)
            if op == "del":
                return f"{at}del [{k!r}]", lambda: c.__delitem__(k)
            if op == "pop":
                return f"{at}pop {k!r}", lambda: c.pop(k)
            if op == "popd":
                return f"{at}pop {k!r} default", lambda: c.pop(k, 5)
            if op == "setdefault":
                return f"{at}setdefault {k!r} {d}", lambda: c.setdefault(k, v)
            if op == "clear":
                return f"{at}clear", lambda: c.clear()
            k = k if isinstance(k, str) and k.isidentifier() else g.ident()
            if op == "update":
                return f"{at}update {k} {d}", lambda: OmegaConf.update(c, k, v, merge=False)
            return f"{at}update {k} {d} force_add", lambda: OmegaConf.update(c, k, v, merge=False, force_add=True)
        n = len(c)
        i = r.randint(-n - 1, n + 1)
        v, d = self.value(self.type_at(path + (0,)))
        op = r.choice("set set set append append insert insert pop del remove sort reverse sset sset clear update".split())
        if op == "set":
            if g.chance(0.05):
                i = r.choice(["0", None, 1.5])
            return f"{at}[{i}] = {d}", lambda: c.__setitem__(i, v)
        if op == "append":
            return f"{at}append {d}", lambda: c.append(v)
        if op == "insert":
            return f"{at}insert {i} {d}", lambda: c.insert(i, v)
        if op == "pop":
            return f"{at}pop {i}", lambda: c.pop(i)
        if op == "del":
            return f"{at}del [{i}]", lambda: c.__delitem__(i)
        if op == "remove":
            return f"{at}remove {d}", lambda: c.remove(v)
        if op == "sort":
            kf = r.choice([None, None, str, lambda x: x["a"]])
            return f"{at}sort {kf}", lambda: c.sort(key=kf)
        if op == "reverse":
            return f"{at}reverse", lambda: c.reverse()
        if op == "clear":
            return f"{at}clear", lambda: c.clear()
        if op == "update":
            return f"{at}update {i} {d}", lambda: OmegaConf.update(c, str(i), v, merge=False)
        vs = [self.value(self.type_at(path + (0,))) for _ in range(r.randint(0, 3))]
        a = None if g.chance(0.3) else r.randint(-n - 1, n + 1)
        b = None if g.chance(0.3) else r.randint(-n - 1, n + 1)
        s = slice(a, b, r.choice([None, None, 1, 2, -1]))
        arg = [x for x, _ in vs]
        if g.chance(0.1):
            return f"{at}[{s}] = 5", lambda: c.__setitem__(s, 5)
        return f"{at}[{s}] = [{', '.join(x for _, x in vs)}]", lambda: c.__setitem__(s, arg)

    def bulk(self):
        """A random operation that may change many nodes."""
        r, g = self.r, self.g
        path, c = self.pick()
        at = f"at {list(path)}: "
        mode = r.choice(list(ListMergeMode))
        op = r.choice("merge merge merge update dotlist resolve masked extend iadd mupdate".split())
        if op == "resolve":
            return f"{at}resolve", lambda: OmegaConf.resolve(c)
        if op in ("merge", "update", "masked", "mupdate"):
            t = self.type_at(path)
            if t is not None and T.base(t)[0] != "any" and g.chance(0.6):
                v = T.gen_value(T.base(t), g, special=0.15)
                if T.base(t)[0] == "sc" and g.chance(0.3):
                    v2, d = T.build(T.base(t), v), f"instance {v!r}"
                else:
                    if type(v) is dict and v and g.chance(0.7):
                        for k in r.sample(list(v), r.randint(0, len(v))):
                            if g.chance(0.5):
                                del v[k]
                            else:
                                v[k] = self.value()[0]
                    v2, d = v, repr(v)
            else:
                v = self.spice(g.tree(depth=2, width=3, keys="ssssi", root="dict" if isinstance(c, DictConfig) else "list"))
                v2, d = v, repr(v)
                if g.chance(0.4):
                    # hit existing keys with compatible shapes
                    v2 = OmegaConf.to_container(c) if g.chance(0.5) else v
                    d = repr(v2)
            if op == "merge" and self.scs and g.chance(0.15):
                sc = r.choice(self.scs)
                v2, d = sc.cls, f"class {sc.name}"
            if op == "merge":
                return f"{at}merge_with({d}, {mode.name})", lambda: c.merge_with(v2, list_merge_mode=mode)
            if op == "update" and isinstance(v2, dict):
                return f"{at}update({d})", lambda: c.update(v2)
            if op == "mupdate":
                ks = [k for k in keys_of(c) if isinstance(k, int) or (isinstance(k, str) and k.isidentifier())]
                ks = [k for k in ks if not isinstance(k, bool)]
                if ks:
                    k = str(r.choice(ks))
                    v, d = self.value(self.type_at(path + (k,)))
                    return f"{at}update({k}, {d})", lambda: OmegaConf.update(c, k, v)
            return f"{at}merge_with({d})", lambda: c.merge_with(v2)
        if op == "dotlist":
            keys = []
            for _ in range(r.randint(1, 3)):
                p = [g.ident() for _ in range(r.randint(1, 3))]
                keys.append(".".join(p) + r.choice(["=1", "=abc", "=[1,2]", "={a:1}", "=null", "=???", "=", "=${a}"]))
            return f"{at}dotlist {keys}", lambda: c.merge_with_dotlist(keys)
        vs = [self.value(self.type_at(path + (0,))) for _ in range(r.randint(0, 3))]
        arg = [x for x, _ in vs]
        d = ", ".join(x for _, x in vs)
        if isinstance(c, ListConfig):
            if op == "extend":
                return f"{at}extend [{d}]", lambda: c.extend(arg)
            if op == "iadd":
                return f"{at}+= [{d}]", lambda: c.__iadd__(arg)
        return self.single()


def safe_path(p):
    return isinstance(p, pathlib.Path)


__all__ = ["World", "Thing", "clone", "child"]
