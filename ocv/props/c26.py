"""C26: dataclass and attrs schemas give the same config, faithful to the class."""
import copy
import dataclasses
import enum
import pathlib
import re
import typing
import warnings

import attr
from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf import nodes as N
from omegaconf.base import Container
from omegaconf.errors import OmegaConfBaseException, ReadonlyConfigError

from ocv import dyn
from ocv import types_ as T
from ocv.core import Skip
from ocv.gen import Color, G, Shape, clone, same
from ocv.props.c20 import mutables
from ocv.snap import child, containers, first_diff, keys_of, nodes, raw, snap, special, wellformed

CASE_CPU_LIMIT = 120.0
NAMES = ["a", "b", "c", "d", "e", "f0", "g_1", "_p", "items", "keys", "copy", "K", "self_", "content", "parent"]
FLAVORS = ("D", "A")
IGN = [None, None, None, None, {"omegaconf_ignore": True}, {"omegaconf_ignore": False}, {"other": 1}]
NAME_RE = re.compile(r"\b[DA](\d+)q\b")


def setup(scratch):
    warnings.simplefilter("ignore")
    OmegaConf.clear_resolvers()
    for k, v in dict(
        typing=typing, enum=enum, pathlib=pathlib, dataclasses=dataclasses, attr=attr, Color=Color, Shape=Shape, copy=copy,
        Any=typing.Any, Dict=typing.Dict, List=typing.List, Optional=typing.Optional, Union=typing.Union,
        Tuple=typing.Tuple, ClassVar=typing.ClassVar,
    ).items():  # fmt: skip
        setattr(dyn, k, v)


def norm(x):
    return NAME_RE.sub(r"K\1q", repr(x))


class Field:
    pass


class Desc:
    """A schema that is rendered once as a dataclass and once as an attrs class."""

    count = 0

    def __init__(self, g, descs, bad=False):
        r = self.r = g.r
        self.g = g
        Desc.count += 1
        self.n = Desc.count
        self.base = r.choice(descs) if descs and r.random() < 0.35 else None
        self.frozen = self.base.frozen if self.base is not None else r.random() < 0.2
        self.descs = [d for d in descs]
        self.own = []
        names = r.sample(NAMES, r.randint(0, 5))
        if self.base is not None and self.base.all and r.random() < 0.5:
            over = r.choice(self.base.all).name
            names = [over] + [n for n in names if n != over]
        for n in names:
            f = self.field(n, {d.n: d for d in descs})
            while f.kind == "none" and self.base is not None and n in [b.name for b in self.base.all]:
                f = self.field(n, {d.n: d for d in descs})  # redeclared without a default: the library's business
            self.own.append(f)
        own = {f.name: f for f in self.own}
        self.over = [f.name for f in self.base.all if f.name in own] if self.base else []
        # all fields, first declaration first, latest declaration
        self.all = [own.get(f.name, f) for f in self.base.all] if self.base else []
        self.all += [f for f in self.own if f.name not in self.over]
        self.kw = True if any(f.kind == "none" for f in self.all) else r.random() < 0.3
        self.style = dict(
            string=r.random() < 0.3, new=r.random() < 0.3, tuples=r.random() < 0.15, slots=self.base.style["slots"] if self.base else r.random() < 0.3, attrs=r.choice(["s", "s", "define"])
        )
        self.extras = [e for e in ("classvar", "method", "property", "post") if r.random() < 0.2]
        self.sc = {}
        for fl in FLAVORS:
            self.make(fl)

    # --- fields
    def field(self, name, descs):
        g, r = self.g, self.r
        f = Field()
        f.name = name
        f.t = gen_type(g, list(descs.values()))
        f.meta = r.choice(IGN)
        f.ignored = bool(f.meta and f.meta.get("omegaconf_ignore"))
        f.init = True
        f.tup = False
        f.kind = r.choice(["none", "value", "value", "value", "factory", "factory", "shared", "missing", "inter", "node"])
        f.odd_type = None
        if f.ignored and r.random() < 0.4:
            f.odd_type = r.choice(["object", "typing.Callable", "complex", "set", "typing.Dict[str, typing.Union[int, typing.List[int]]]"])
            f.kind = r.choice(["none", "value"])
            f.t = ("any",)
        f.v = value(f.t, g)
        if f.kind == "missing":
            f.v = "???"
        if f.kind == "inter":
            f.v = r.choice(["${a}", "${.b}", "${..a}", "x ${c}", "${oc.env:OCV_NONE,null}"])
            b = T.base(f.t)
            if f.t[0] == "any":
                f.v = f.v
            elif b[0] in ("list", "dict", "sc") and f.v.startswith("x"):
                f.v = "${a}"
            elif b[0] not in ("str", "any") and f.v.startswith("x"):
                f.v = "${c}"
        if f.kind == "node" and f.t[0] == "union":
            f.kind = "value"
        if f.kind == "value" and r.random() < 0.25 and T.base(f.t)[0] == "list":
            f.v = r.choice([[], f.v])  # an immutable default, not made by a factory
        f.tup = f.kind == "value" and type(f.v) is list and not any(isinstance(x, (list, dict, Inst, Cls)) for x in f.v) and r.random() < 0.6
        if f.kind != "none" and r.random() < 0.1:
            f.init = False
        f.alias = "al_" + name if r.random() < 0.15 else None
        return f

    def make(self, fl):
        name = f"{fl}{self.n}q"
        ns = {}
        lines = []
        style = self.style
        for f in self.own:
            ann = f.odd_type or text(f.t, fl, style)
            if style["string"]:
                ann = repr(ann)
            args = []
            if f.kind != "none":
                vn = f"_v_{name}_{f.name}"
                setattr(dyn, vn, lambda f=f, fl=fl: pyvalue(f, fl))
                immutable = not isinstance(f.v, (list, dict, Inst, Cls)) or f.kind in ("missing", "inter")
                if f.tup:
                    setattr(dyn, vn + "i", tuple(f.v))
                    fac = None
                    args.append(f"default={vn}i")
                elif f.kind == "shared" and not immutable:
                    setattr(dyn, vn + "s", pyvalue(f, fl))
                    fac = f"lambda: {vn}s"
                elif immutable and f.kind in ("value", "missing", "inter"):
                    setattr(dyn, vn + "i", f.v)
                    fac = None
                    args.append(f"default={vn}i")
                else:
                    fac = vn
                if fac:
                    args.append(("default_factory=" if fl == "D" else "factory=") + fac)
            if f.meta is not None:
                args.append(f"metadata={f.meta!r}")
            if not f.init:
                args.append("init=False")
            elif f.alias and fl == "A":
                args.append(f"alias={f.alias!r}")
            fn = "dataclasses.field" if fl == "D" else ("attr.field" if style["attrs"] == "define" else "attr.ib")
            if fl == "D" and len(args) == 1 and args[0].startswith("default="):
                rhs = " = " + args[0][8:]
            elif args or fl == "A":
                rhs = f" = {fn}({', '.join(args)})"
            else:
                rhs = ""
            lines.append(f"    {f.name}: {ann}{rhs}")
        if "classvar" in self.extras:
            lines.append("    cv: ClassVar[int] = 3")
            lines.append("    plain_attr = 5")
        if "method" in self.extras:
            lines.append("    def method(self): return 1")
            lines.append("    @staticmethod\n    def stat(): return 1")
        if "property" in self.extras:
            lines.append("    @property\n    def prop(self): return 1")
        if "post" in self.extras:
            lines.append(f"    def {'__post_init__' if fl == 'D' else '__attrs_post_init__'}(self): pass")
        if not lines:
            lines = ["    pass"]
        opts = []
        if self.frozen:
            opts.append("frozen=True")
        if self.kw:
            opts.append("kw_only=True")
        if fl == "D":
            if style["slots"]:
                opts.append("slots=True")
            dec = f"@dataclasses.dataclass({', '.join(opts)})"
        elif style["attrs"] == "define":
            opts.append(f"slots={style['slots']}")
            dec = f"@attr.define({', '.join(opts)})"
        else:
            dec = f"@attr.s({', '.join(opts + ['auto_attribs=True'] + (['slots=True'] if style['slots'] else []))})"
        bases = f"({fl}{self.base.n}q)" if self.base is not None else ""
        self.src = getattr(self, "src", {})
        src = self.src[fl] = f"{dec}\nclass {name}{bases}:\n" + "\n".join(lines)
        exec(src, dyn.__dict__)
        cls = dyn.__dict__[name]
        fields = [(f.name, strip(f.t, fl), None) for f in self.all if not f.ignored]
        self.sc[fl] = T.SC(name, fields, cls, "dataclass" if fl == "D" else "attrs", self.base.sc[fl] if self.base else None)

    def cls(self, fl):
        return self.sc[fl].cls

    def order(self, fl):
        """Names of the fields in the class's own order, as the class's library lists them."""
        c = self.cls(fl)
        ns = [f.name for f in (dataclasses.fields(c) if fl == "D" else attr.fields(c))]
        ign = {f.name for f in self.all if f.ignored}
        return [n for n in ns if n not in ign]

    def content(self):
        """Plain content of a config made from the class."""
        return {f.name: ("???" if f.kind == "none" else plain(f.v)) for f in self.all if not f.ignored}

    def is_sub(self, other):
        d = self
        while d is not None:
            if d is other:
                return True
            d = d.base
        return False


class Inst:
    """Description of an instance: field values by name."""

    def __init__(self, desc, vals):
        self.desc, self.vals = desc, vals

    def py(self, fl):
        d = self.desc
        c = d.cls(fl)
        alias = {f.name: f.name for f in dataclasses.fields(c)} if fl == "D" else {f.name: f.alias for f in attr.fields(c)}
        kw = {alias[f.name]: topy(self.vals[f.name], fl) for f in d.all if f.init}
        o = c(**kw)
        for f in d.all:
            if not f.init:
                object.__setattr__(o, f.name, topy(self.vals[f.name], fl))
        return o

    def __repr__(self):
        return f"{self.desc.n}q({self.vals!r})"


class Cls:
    """The class itself as a value."""

    def __init__(self, desc):
        self.desc = desc

    def __repr__(self):
        return f"class {self.desc.n}q"


def plain(v):
    if isinstance(v, Inst):
        ign = {f.name for f in v.desc.all if f.ignored}
        return {n: plain(x) for n, x in v.vals.items() if n not in ign}
    if isinstance(v, Cls):
        return plain(v.desc.content())
    if type(v) is list:
        return [plain(x) for x in v]
    if type(v) is dict:
        return {k: plain(x) for k, x in v.items()}
    return v


def topy(v, fl):
    if isinstance(v, Inst):
        return v.py(fl)
    if isinstance(v, Cls):
        return v.desc.cls(fl)
    if type(v) is list:
        return [topy(x, fl) for x in v]
    if type(v) is dict:
        return {k: topy(x, fl) for k, x in v.items()}
    return clone(v)


def pyvalue(f, fl):
    v = topy(f.v, fl)
    if f.kind == "node":
        return as_node(v)
    return v


def as_node(v):
    """The value as a config node, if there is one without a type of its own."""
    if type(v) is dict:
        return OmegaConf.create(v)
    if type(v) is list:
        return OmegaConf.create(v)
    if type(v) in (int, bool, float, str, bytes) and v is not None:
        return {int: N.IntegerNode, bool: N.BooleanNode, float: N.FloatNode, str: N.StringNode, bytes: N.BytesNode}[type(v)](v)
    return v


def gen_type(g, descs, depth=2):
    r = g.r
    x = r.random()
    if descs and x < 0.25:
        t = ("sc", r.choice(descs))
    elif depth and x < 0.4:
        t = ("list", gen_type(g, descs, depth - 1))
    elif depth and x < 0.55:
        t = ("dict", T.gen_keytype(g), gen_type(g, descs, depth - 1))
    elif x < 0.63:
        return ("any",)
    elif x < 0.75:
        t = T.gen_union(g)
    else:
        t = T.gen_prim(g)
    return ("opt", t) if r.random() < 0.3 else t


def value(t, g, lv=0):
    """A valid value; instances are Inst (of the class or of a subclass made so far)."""
    r = g.r
    k = t[0]
    if k == "opt":
        return None if r.random() < 0.25 else value(t[1], g, lv)
    if k == "sc":
        # a subclass may hold its base again
        d = r.choice(subs(t[1])) if lv < 2 else t[1]
        if r.random() < 0.12:
            return Cls(d)
        return Inst(d, {f.name: value(f.t, g, lv + 1) if not f.odd_type else 1 for f in d.all})
    if k == "list":
        return [value(t[1], g, lv) for _ in range(r.randint(0, 3))]
    if k == "dict":
        return {T.gen_key(t[1], g): value(t[2], g, lv) for _ in range(r.randint(0, 3))}
    if k == "any":
        return g.tree(depth=2, width=3, keys="s")
    return T.gen_value(t, g)


ALL = []


def subs(d):
    return [x for x in ALL if x.is_sub(d)] or [d]


def strip(t, fl):
    """The type with the schema replaced by its class of one flavor."""
    if t[0] == "sc":
        return ("sc", t[1].sc[fl])
    if t[0] in ("opt", "list"):
        return (t[0], strip(t[1], fl))
    if t[0] == "dict":
        return ("dict", t[1], strip(t[2], fl))
    return t


def text(t, fl, style, top=True):
    k = t[0]
    new = style["new"]
    if k == "any":
        return "Any"
    if k == "path":
        return "pathlib.Path"
    if k == "enum":
        return t[1].__name__
    if k == "opt":
        if t[1][0] == "any":
            return "Optional[Any]"
        inner = text(t[1], fl, style, top)
        return f"{inner} | None" if new else f"Optional[{inner}]"
    if k == "union":
        ms = [text(m, fl, style) for m in t[1]]
        return " | ".join(ms) if new else f"Union[{', '.join(ms)}]"
    if k == "list":
        if style["tuples"] and top:
            return f"{'tuple' if new else 'Tuple'}[{text(t[1], fl, style, False)}, ...]"
        return f"{'list' if new else 'List'}[{text(t[1], fl, style, False)}]"
    if k == "dict":
        return f"{'dict' if new else 'Dict'}[{text(t[1], fl, style, False)}, {text(t[2], fl, style, False)}]"
    if k == "sc":
        return f"{fl}{t[1].n}q"
    return k


WAYS = {
    "structured": lambda o: OmegaConf.structured(o),
    "create": lambda o: OmegaConf.create(o),
    "DictConfig": lambda o: DictConfig(o),
    "in a dict": lambda o: OmegaConf.create({"x": o})._get_node("x"),
    "in a list": lambda o: OmegaConf.create([1, o])._get_node(1),
    "in a ListConfig": lambda o: ListConfig([o])._get_node(0),
    "assigned": lambda o: _assign(o),
    "appended": lambda o: _append(o),
    "deep in a dict": lambda o: OmegaConf.create({"x": {"y": [o]}}).x.y._get_node(0),
    "updated": lambda o: _update(o),
    "twice": lambda o: OmegaConf.create(OmegaConf.structured(o)),
}


def _assign(o):
    c = OmegaConf.create({"x": None})
    c.x = o
    return c._get_node("x")


def _append(o):
    c = OmegaConf.create([])
    c.append(o)
    return c._get_node(0)


def _update(o):
    c = OmegaConf.create({})
    OmegaConf.update(c, "p.x", o)
    return c.p._get_node("x")


def look(cfg):
    """Snapshot of a config without the key that the place gives it."""
    s = list(snap(cfg))
    s[4] = None
    return tuple(s)


def verify(mon, cfg, desc, fl, want, what):
    """Fields, order, types, optionality and content of a config against the schema."""
    c = desc.cls(fl)
    mon.check(OmegaConf.get_type(cfg) is c, f"{what}: type is {OmegaConf.get_type(cfg)}", "type")
    order = desc.order(fl)
    mon.check(list(cfg.keys()) == order, f"{what}: fields are {list(cfg.keys())}, the class has {order}", "fields", source=desc.src[fl])
    got = raw(cfg)
    w = {n: want[n] for n in order}
    mon.check(agree(got, w), f"{what}: content is {got!r:.500} instead of {w!r:.500}", "content", source=desc.src[fl])
    e = T.conforms(cfg, ("sc", desc.sc[fl]))
    mon.check(e is None, f"{what}: {e}", "conforms", source=desc.src[fl])
    for f in desc.all:
        if f.ignored:
            continue
        n = child(cfg, f.name)
        opt = f.t[0] in ("opt", "any")
        mon.check(n._is_optional() == opt, f"{what}: field {f.name} declared {T.show(strip(f.t, fl))} has optional={n._is_optional()}", "optional", source=desc.src[fl])
        declared(mon, n, f.t, fl, f"{what}: field {f.name}", desc)
    wellformed(cfg, mon, what)
    flags(mon, cfg, what)


def agree(a, b):
    if type(a) is dict and type(b) is dict:
        # the order inside of nested instances is that of their class
        return set(map(repr, a)) == set(map(repr, b)) and all(agree(a[k], b[k]) for k in b)
    if type(a) is list and type(b) is list:
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    return same(a, b)


def canon(h):
    """Type hints that mean the same compare equal."""
    o, a = typing.get_origin(h), typing.get_args(h)
    if o is typing.Union or type(h).__name__ == "UnionType":
        return ("union", frozenset(canon(x) for x in a))
    if o in (list, dict):
        return (o.__name__,) + tuple(canon(x) for x in a)
    if h in (typing.List, list):
        return ("list", typing.Any)
    if h in (typing.Dict, dict):
        return ("dict", typing.Any, typing.Any)
    return h


def declared(mon, n, t, fl, what, desc):
    """What the node itself says about its type."""
    b = T.base(t)
    md = n._metadata
    if b[0] == "dict":
        mon.check(
            md.key_type == T.hint(b[1]) and canon(md.element_type) == canon(T.hint(strip(b[2], fl))),
            f"{what}: keys are typed {md.key_type}, elements {md.element_type}", "element-type", source=desc.src[fl],
        )  # fmt: skip
    elif b[0] == "list":
        mon.check(canon(md.element_type) == canon(T.hint(strip(b[1], fl))), f"{what}: elements are typed {md.element_type}", "element-type", source=desc.src[fl])
    elif b[0] == "sc":
        mon.check(md.ref_type is b[1].cls(fl), f"{what}: declared class is {md.ref_type}", "ref-type", source=desc.src[fl])
    elif b[0] == "any":
        if not isinstance(n, Container):
            pass
    elif b[0] == "union":
        mon.check(canon(md.ref_type) == canon(T.hint(b)), f"{what}: declared {md.ref_type}", "ref-type", source=desc.src[fl])
    else:
        mon.check(md.ref_type == T.hint(b), f"{what}: declared {md.ref_type}", "ref-type", source=desc.src[fl])
    mon.ev("declarations_checked")


def flags(mon, cfg, what):
    for p, n in containers(cfg):
        t = n._metadata.object_type
        if t in T.BY_CLS:
            d = next((x for x in ALL if t in (x.cls("D"), x.cls("A"))), None)
            if d is not None:
                fr = n._get_node_flag("readonly") is True
                mon.check(fr == d.frozen, f"{what}: node {p} of a {'frozen' if d.frozen else 'normal'} class has readonly={n._get_node_flag('readonly')}", "frozen")


def touch(cfg):
    """Change whatever can be changed."""
    n = 0
    for _, c in containers(cfg):
        if special(c):
            continue
        for k in list(keys_of(c)):
            try:
                if isinstance(c, ListConfig):
                    del c[0]
                else:
                    c[k] = "???"
                n += 1
            except Exception:
                pass
    return n


def case(rng, mon, i):
    g = G(rng)
    del ALL[:]
    Desc.count = 0
    for _ in range(rng.choice([1, 2, 2, 3, 3])):
        try:
            ALL.append(Desc(g, list(ALL)))
        except (TypeError, ValueError) as e:
            # not a class Python accepts (e.g. layout conflicts of slots)
            mon.stat("not_a_class_" + type(e).__name__)
            raise Skip() from None
    desc = ALL[-1] if rng.random() < 0.7 else rng.choice(ALL)
    for d in ALL:
        mon.log(d.src["D"].replace("\n", " ; "))
    if rng.random() < 0.3:
        invalid(rng, mon, g)
        return
    inst = None
    if rng.random() < 0.5:
        inst = value(("sc", desc), g)
        if isinstance(inst, Cls):
            inst = None
        else:
            desc = inst.desc
            if rng.random() < 0.4:
                for f in desc.all:
                    if f.odd_type is None and rng.random() < 0.2:
                        inst.vals[f.name] = "???"
            mon.log("instance", repr(inst))
    want = plain(inst) if inst is not None else desc.content()
    looks = {}
    for fl in FLAVORS:
        def make():
            return inst.py(fl) if inst is not None else desc.cls(fl)

        obj = make()
        way = rng.choice(sorted(WAYS))
        mon.log("create", fl, way)
        before = repr(obj)
        cfg = WAYS["structured"](obj)
        what = f"structured({'instance' if inst is not None else 'class'} of {desc.cls(fl).__name__})"
        verify(mon, cfg, desc, fl, want, what)
        looks[fl] = look(cfg)
        # every way of creating gives the same
        other = WAYS[way](obj)
        d = first_diff(looks[fl], look(other))
        mon.check(d is None, f"{what} and '{way}' differ: {d}", "ways", source=desc.src[fl])
        mon.ev("ways_agreed")
        # own defaults
        a, b = mutables(cfg), mutables(other)
        for x in b:
            mon.check(x not in a, f"{what}: two creations share the object at {b[x]}", "shared")
        for _, _, n in nodes(cfg):
            pass
        third = WAYS["structured"](obj)
        s3 = snap(third)
        readonly(mon, cfg, rng)
        n = touch(cfg)
        mon.check(snap(third) == s3, f"{what}: changing one config changed another", "shared")
        mon.check(repr(obj) == before, f"{what}: changing the config changed the {'instance' if inst is not None else 'class'}: {before} -> {obj!r}", "source-changed")
        mon.check(look(WAYS["structured"](obj)) == looks[fl], f"{what}: after changing a config, another creation gives something else", "shared", source=desc.src[fl])
        mon.ev("own_defaults", n or 1)
        if inst is not None:
            # what happens to the instance afterwards is not seen by the config
            spoil(obj)
            mon.check(snap(third) == s3, f"{what}: changing the instance changed the config", "shared")
            back(mon, WAYS["structured"](make()), desc, fl, inst, want)
    x, y = norm(looks["D"]), norm(looks["A"])
    if not any(d.over for d in ALL):
        mon.check(x == y, f"dataclass and attrs class differ: {first_diff(eval_(looks['D']), eval_(looks['A']))}", "flavors", dataclass=desc.src["D"])
        mon.ev("flavors_agreed")


def eval_(s):
    def go(x):
        if type(x) is tuple:
            return tuple(go(y) for y in x)
        return NAME_RE.sub(r"K\1q", x) if isinstance(x, str) else x

    return go(s)


def readonly(mon, cfg, rng):
    for p, c in containers(cfg):
        if c._get_node_flag("readonly") and not special(c) and keys_of(c):
            k = rng.choice(keys_of(c))
            s = snap(cfg)
            try:
                c[k] = "???"
                mon.fail(f"the config of a frozen class accepts {p}[{k!r}] = ???", "frozen")
            except ReadonlyConfigError:
                mon.ev("frozen_refused")
            mon.check(snap(cfg) == s, "a refused assignment changed the config", "frozen")


def spoil(o):
    """Change the mutable parts of an instance in place."""
    for v in [getattr(o, n) for n in (f.name for f in (dataclasses.fields(o) if dataclasses.is_dataclass(o) else attr.fields(type(o))))]:
        if type(v) is list:
            v.append(1)
        elif type(v) is dict:
            v["zz"] = 1
        elif type(v) in T.BY_CLS:
            spoil(v)


def back(mon, cfg, desc, fl, inst, want):
    """to_object gives an equal instance back."""
    r = repr(want)
    if "???" in r or "${" in r or any(f.ignored for d in ALL for f in d.all):
        return
    if "'???'" in repr(raw(cfg)) or any(isinstance(f.v, Cls) or "class" in repr(f.v) for d in ALL for f in d.all) or "class" in repr(inst):
        return
    if any(d.style["tuples"] for d in ALL) or any(f.kind == "node" for d in ALL for f in d.all):
        return
    o = OmegaConf.to_object(cfg)
    mon.check(type(o) is desc.cls(fl), f"to_object gives a {type(o)}", "back")
    exp = inst.py(fl)
    mon.check(eq(o, exp), f"to_object(structured(x)) gives {o!r:.400} for {exp!r:.400}", "back", source=desc.src[fl])
    mon.ev("instances_back")


def eq(a, b):
    if type(a) is not type(b):
        return False
    if type(a) in T.BY_CLS:
        ns = [f.name for f in (dataclasses.fields(a) if dataclasses.is_dataclass(a) else attr.fields(type(a)))]
        return all(eq(getattr(a, n), getattr(b, n)) for n in ns)
    if type(a) is list:
        return len(a) == len(b) and all(map(eq, a, b))
    if type(a) is dict:
        return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    return same(a, b)


def outcome(f):
    try:
        return "ok", f()
    except OmegaConfBaseException as e:
        return type(e).__name__, norm(str(e))


def invalid(rng, mon, g):
    """A default (or a value of an instance) that may be invalid: the same verdict and the right one."""
    t = gen_type(g, [], 2)
    for _ in range(20):
        if T.base(t)[0] != "any":
            break
        t = gen_type(g, [], 2)
    v = T.odd_value(g)
    if rng.random() < 0.3:
        # right shape, one wrong leaf
        v = value(t, g)
        if type(v) is list and v:
            v[rng.randrange(len(v))] = T.odd_value(g)
        elif type(v) is dict and v:
            v[rng.choice(list(v))] = T.odd_value(g)
        else:
            v = T.odd_value(g)
    if "${" in repr(v) or "???" in repr(v):
        raise Skip()
    try:
        want = T.conv(t, v)
        ok = True
    except T.Bad:
        ok = False
    Desc.count += 1
    n = Desc.count
    opts = ["by class", "by instance", "by class in a dict", "by subclass", "nested"]
    how = rng.choice(opts)
    new, string = rng.random() < 0.3, rng.random() < 0.3
    mon.log("default", T.show(t), repr(v), how)
    res = {}
    for fl in FLAVORS:
        name = f"{fl}{n}q"
        setattr(dyn, f"_w{n}", v)
        ann = text(t, fl, dict(new=new, tuples=False))
        if string:
            ann = repr(ann)
        dec = "@dataclasses.dataclass" if fl == "D" else "@attr.s(auto_attribs=True)"
        fac = f"dataclasses.field(default_factory=lambda: copy.deepcopy(_w{n}))" if fl == "D" else f"attr.Factory(lambda: copy.deepcopy(_w{n}))"
        fac0 = "0" if how == "by instance" and rng.random() < 0 else fac
        src = f"{dec}\nclass {name}:\n    z: int = 1\n    x: {ann} = {fac0}\n"
        if how == "by subclass":
            src += f"{dec}\nclass {fl}{n + 1}q({name}):\n    y: str = 'y'\n"
        if how == "nested":
            mk = f"dataclasses.field(default_factory=lambda: {name}())" if fl == "D" else f"attr.Factory(lambda: {name}())"
            src += f"{dec}\nclass {fl}{n + 1}q:\n    y: str = 'y'\n    x: {name} = {mk}\n"
        exec(src, dyn.__dict__)
        c = dyn.__dict__[name]
        c2 = dyn.__dict__.get(f"{fl}{n + 1}q")
        f = {
            "by class": lambda: OmegaConf.structured(c),
            "by instance": lambda: OmegaConf.structured(c()),
            "by class in a dict": lambda: OmegaConf.create({"q": c}).q,
            "by subclass": lambda: OmegaConf.structured(c2),
            "nested": lambda: OmegaConf.structured(c2).x,
        }[how]
        s, r = outcome(f)
        if s == "ok":
            mon.check(ok, f"default {v!r:.200} of a field declared {T.show(t)} is accepted ({how}): {raw(r)!r:.300}", "invalid-default", source=src)
            got = raw(r)["x"]
            mon.check(same(got, want), f"default {v!r:.200} of a field declared {T.show(t)} gives {got!r:.200} instead of {want!r:.200}", "default", source=src)
            e = T.conforms(child(r, "x"), t)
            mon.check(e is None, f"default {v!r:.200}: {e}", "conforms", source=src)
            mon.ev("valid_defaults_accepted")
        else:
            mon.check(not ok, f"valid default {v!r:.200} of a field declared {T.show(t)} is rejected ({how}): {r:.300}", "valid-default", source=src)
            mon.ev("invalid_defaults_rejected")
        res[fl] = (s, look(r) if s == "ok" else r)
    mon.check(norm(res["D"]) == norm(res["A"]), f"dataclass: {res['D']!r:.400}, attrs: {res['A']!r:.400}", "flavors")
