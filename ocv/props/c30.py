"""C30: questions about a config are answered truthfully."""
import warnings
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Dict, List, Optional, Union

from omegaconf import MISSING, DictConfig, ListConfig, OmegaConf
from omegaconf.base import Container

from ocv.gen import Color, G, Shape, same
from ocv.reads import debugger
from ocv.snap import child, keys_of

CASE_CPU_LIMIT = 60.0


@dataclass
class Leaf:
    n: int = 1
    u: Union[int, str] = "x"
    m: str = MISSING
    o: Optional[Dict[str, int]] = None
    i: Any = "${held}"
    e: Optional[Color] = Color.RED


@dataclass
class Branch(Leaf):
    leaf: Leaf = field(default_factory=Leaf)
    none: Optional[Leaf] = None
    gone: Leaf = MISSING
    ls: List[Leaf] = field(default_factory=lambda: [Leaf()])
    d: Dict[Color, Any] = field(default_factory=lambda: {Color.RED: 1, Color.GREEN: "???"})
    un: Union[bool, float, None] = None


class Obj:
    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "Obj()"


OBJ = Obj()


# A specification: (kind, payload); what is put into the config is made from it.
def val(v):
    return ("none", "any") if v is None else ("missing", "any") if isinstance(v, str) and v == "???" else ("val", v)


def leaf_spec():
    return ("sc", (Leaf, {"n": val(1), "u": val("x"), "m": ("missing", "any"), "o": ("none", "dict"), "i": ("inter", "${held}"), "e": val(Color.RED)}))


def branch_spec():
    f = dict(leaf_spec()[1][1])
    f.update(
        leaf=leaf_spec(), none=("none", "dict"), gone=("missing", "dict"), ls=("list", [leaf_spec()]),
        d=("dict", {Color.RED: val(1), Color.GREEN: ("missing", "any")}), un=("none", "any"),
    )  # fmt: skip
    return ("sc", (Branch, f))


class W:
    def __init__(self, rng, mon):
        self.r, self.mon, self.g = rng, mon, G(rng)
        self.objects = rng.random() < 0.2

    def spec(self, depth):
        r = self.r
        x = r.random()
        if depth and x < 0.35:
            keys = r.sample(["a", "b", "c", "d e", "k.l", 7, Color.GREEN, True, 2.5, b"k", "held"], r.randint(0, 4))
            return ("dict", {k: self.spec(depth - 1) for k in keys})
        if depth and x < 0.5:
            return ("list", [self.spec(depth - 1) for _ in range(r.randint(0, 3))])
        if depth and x < 0.58:
            return r.choice([leaf_spec, branch_spec])()
        if x < 0.65:
            return ("none", r.choice(["any", "dict", "list", "sc"]))
        if x < 0.73:
            return ("missing", r.choice(["any", "dict", "list", "sc"]))
        if x < 0.83:
            return ("inter", r.choice(["${held}", "a ${held} b", "${nope}", "${.x}", "${d}", "${oc.env:OCV_NONE,1}", "\\${held}", "x\\\\${held}"]))
        if x < 0.87:
            return ("cinter", (r.choice(["${hd}", "${nope}", "${..x}"]), r.choice(["dict", "list"])))
        if self.objects and x < 0.9:
            return ("obj", OBJ)
        v = r.choice([self.g.prim, self.g.prim, lambda: r.choice([Color.RED, Shape.A, Path("x/y"), b"z", True, 0, "", "????", "?? ?", " ???", "$", "{}", "${"[:1] + "x"])])()
        if isinstance(v, str) and "${" in v:
            v = "plain"
        return val(v)

    def value(self, s):
        kind, p = s
        if kind in ("val", "obj"):
            return p
        if kind == "dict":
            return {k: self.value(v) for k, v in p.items()}
        if kind == "list":
            return [self.value(v) for v in p]
        if kind == "sc":
            return self.r.choice([p[0], p[0]()]) if not self.changed(s) else self.node(s)
        if kind == "inter":
            return p
        if kind == "cinter":
            return (DictConfig if p[1] == "dict" else ListConfig)(p[0])
        raw = None if kind == "none" else "???"
        return {"any": raw, "dict": DictConfig(raw), "list": ListConfig(raw), "sc": DictConfig(raw, ref_type=Leaf)}[p]

    @staticmethod
    def changed(s):
        return s[1][1] != (leaf_spec if s[1][0] is Leaf else branch_spec)()[1][1]

    def node(self, s):
        c = OmegaConf.structured(s[1][0])
        for k, v in s[1][1].items():
            if k in ("n", "u", "i", "e"):
                c[k] = self.value(v)
        return c


def plain(s):
    kind, p = s
    if kind == "dict":
        return {k: plain(v) for k, v in p.items()}
    if kind == "sc":
        return {k: plain(v) for k, v in p[1].items()}
    if kind == "list":
        return [plain(v) for v in p]
    if kind == "cinter":
        return p[0]
    return {"none": None, "missing": "???"}.get(kind, p)


def shown(s):
    return repr(plain(s))


def truthful(w, node, s, where):
    """Asks everything about one container and compares with the specification."""
    mon, r = w.mon, w.r
    kind, p = s
    items = dict(enumerate(p)) if kind == "list" else p[1] if kind == "sc" else p
    mon.check(OmegaConf.is_config(node) is True, f"{where}: not a config", "is_config")
    mon.check(OmegaConf.is_list(node) is (kind == "list"), f"{where}: is_list", "is_list")
    mon.check(OmegaConf.is_dict(node) is (kind != "list"), f"{where}: is_dict", "is_dict")
    t = {"list": list, "dict": dict}.get(kind) or p[0]
    mon.check(OmegaConf.get_type(node) is t, f"{where}: get_type gives {OmegaConf.get_type(node)}, expected {t}", "get_type")
    mon.check(OmegaConf.is_interpolation(node) is False, f"{where}: is an interpolation", "is_interpolation")
    for text in (str(node), repr(node), f"{node}"):
        mon.check(text == shown(s), f"{where}: prints as {text}, expected {shown(s)}", "print")
    names = [str(k) for k in items] if kind == "list" else [k.name if isinstance(k, Color) else str(k) for k in items]
    mon.check(dir(node) == sorted(names), f"{where}: dir gives {dir(node)}, expected {sorted(names)}", "dir")
    mon.ev("containers_asked")
    for k, v in items.items():
        at = f"{where}[{k!r}]"
        vk, vp = v
        mon.check(OmegaConf.is_missing(node, k) is (vk == "missing"), f"{at}: is_missing gives {OmegaConf.is_missing(node, k)} for {v}", "is_missing")
        inter = vk in ("inter", "cinter")
        mon.check(OmegaConf.is_interpolation(node, k) is inter, f"{at}: is_interpolation gives {OmegaConf.is_interpolation(node, k)} for {v}", "is_interpolation")
        held = child(node, k)
        mon.check(OmegaConf.is_interpolation(held) is inter, f"{at}: is_interpolation of the node gives {OmegaConf.is_interpolation(held)} for {v}", "is_interpolation")
        if kind == "list":
            back = k - len(items)
            mon.check(OmegaConf.is_missing(node, back) is (vk == "missing"), f"{at}: is_missing at {back}", "is_missing")
            mon.check(OmegaConf.is_interpolation(node, back) is inter, f"{at}: is_interpolation at {back}", "is_interpolation")
        elif isinstance(k, Color) and kind == "dict" and node._metadata.key_type is Color:
            mon.check(OmegaConf.is_missing(node, k.name) is (vk == "missing"), f"{at}: is_missing by name", "is_missing")
        if vk in ("val", "obj", "dict", "list", "sc"):
            t = type(vp) if vk in ("val", "obj") else {"dict": dict, "list": list}.get(vk) or vp[0]
            if vk == "obj":
                t = OBJ.__class__
            got = OmegaConf.get_type(node, k)
            mon.check(got is t, f"{at}: get_type gives {got}, expected {t}", "get_type")
            item = node[k]
            want = vk not in ("val", "obj")
            answers = (OmegaConf.is_config(item), OmegaConf.is_dict(item), OmegaConf.is_list(item))
            mon.check(answers == (want, vk in ("dict", "sc"), vk == "list"), f"{at}: is_config, is_dict, is_list give {answers} for {v}", "is_config")
            if not want:
                mon.check(same(item, vp) or item is vp, f"{at}: reads {item!r}, expected {vp!r}", "content")
        elif vk == "none":
            got = OmegaConf.get_type(node, k)
            mon.check(got in (None, type(None)) or vp == "list", f"{at}: get_type of None gives {got}", "get_type")
        mon.ev("items_asked")
        mon.ev("items_" + vk)
    for k in ("zz", "a", 99, False) if kind != "list" else ():
        if k not in items and not (kind == "dict" and node._metadata.key_type is Color):
            mon.check(OmegaConf.is_missing(node, k) is False, f"{where}: the absent key {k!r} is missing", "is_missing")
            if kind == "dict" and not OmegaConf.is_struct(node):
                mon.check(OmegaConf.is_interpolation(node, k) is False, f"{where}: the absent key {k!r} is an interpolation", "is_interpolation")
                mon.check(OmegaConf.get_type(node, k) is None, f"{where}: the absent key {k!r} has a type", "get_type")
            mon.ev("absent_asked")
    if kind != "list" and r.random() < 0.5:
        masked(w, node, items, where)
    dbg = debugger()
    if dbg is not None and r.random() < 0.5:
        inspected(w, dbg, node, kind, items, where)


def masked(w, node, items, where):
    r, mon = w.r, w.mon
    ks = [k for k in items if r.random() < 0.6]
    r.shuffle(ks)
    given = ks + r.sample(["zz", "nope", 99], r.randint(0, 2))
    strs = [k for k in ks if isinstance(k, str)]
    if strs and r.random() < 0.2:
        given = strs[0]
        ks = [given]
    elif r.random() < 0.3:
        given = tuple(given) if r.random() < 0.5 else dict.fromkeys(given)
    got = OmegaConf.masked_copy(node, given)
    want = {k: items[k] for k in items if k in ks}
    mon.check(type(got) is DictConfig, f"{where}: masked_copy gives a {type(got)}", "masked_copy")
    mon.check(list(keys_of(got)) == list(want), f"{where}: masked_copy with {given!r} has the keys {list(keys_of(got))}, expected {list(want)}", "masked_copy")
    mon.check(repr(got) == shown(("dict", want)), f"{where}: masked_copy with {given!r} gives {got!r}, expected {shown(('dict', want))}", "masked_copy")
    for k, v in want.items():
        mon.check(OmegaConf.is_missing(got, k) is (v[0] == "missing"), f"{where}[{k!r}]: is_missing of the masked copy", "masked_copy")
        mon.check(OmegaConf.is_interpolation(got, k) is (v[0] in ("inter", "cinter")), f"{where}[{k!r}]: is_interpolation of the masked copy", "masked_copy")
        if v[0] in ("val", "dict", "list", "sc"):
            mon.check(OmegaConf.get_type(got, k) is OmegaConf.get_type(node, k), f"{where}[{k!r}]: get_type of the masked copy", "masked_copy")
        if v[0] in ("dict", "list", "sc"):
            mon.check(child(got, k) is not child(node, k), f"{where}[{k!r}]: the masked copy shares the item", "masked_copy")
            truthful(w, child(got, k), v, f"{where}.masked[{k!r}]")
    mon.ev("masked_agreed")


def inspected(w, dbg, node, kind, items, where):
    """What the debugger plugin shows."""
    mon = w.mon
    view = dbg.get_dictionary(node)
    want = [str(k) if kind == "list" else k for k in items]
    mon.check(list(view) == want, f"{where}: the debugger shows {list(view)}, expected {want}", "debugger")
    for (k, v), (name, got) in zip(items.items(), view.items()):
        held = child(node, k)
        if v[0] in ("val", "obj") and type(held).__name__ != "UnionNode":
            mon.check(same(got, v[1]) or got is v[1], f"{where}[{k!r}]: the debugger shows {got!r}, expected {v[1]!r}", "debugger")
        else:
            mon.check(got is held, f"{where}[{k!r}]: the debugger shows {got!r}, not the node", "debugger")
        mon.check(dbg.resolve(node, name) is held, f"{where}[{k!r}]: the debugger resolves {name!r} to something else", "debugger")
        text = dbg.get_str(held)
        if v[0] == "missing":
            mon.check(text == "??? <MISSING>", f"{where}[{k!r}]: the debugger prints {text!r}", "debugger")
        elif v[0] in ("inter", "cinter"):
            t = v[1] if v[0] == "inter" else v[1][0]
            mon.check(text.startswith(f"{t} -> "), f"{where}[{k!r}]: the debugger prints {text!r} for {t!r}", "debugger")
            if t == "${held}" and ".masked" not in where:
                mon.check(text == "${held} -> HELD", f"{where}[{k!r}]: the debugger prints {text!r} for {t!r}", "debugger")
        else:
            want = plain(v)
            mon.check(text == (want if isinstance(want, str) else str(want)), f"{where}[{k!r}]: the debugger prints {text!r}, expected {want!r}", "debugger")
        mon.ev("inspections_agreed")


def everywhere(w, node, s, where="c"):
    truthful(w, node, s, where)
    kind, p = s
    for k, v in dict(enumerate(p)).items() if kind == "list" else (p[1] if kind == "sc" else p).items():
        if v[0] in ("dict", "list", "sc"):
            everywhere(w, child(node, k), v, f"{where}[{k!r}]")


def spots(node, s):
    yield node, s
    kind, p = s
    if kind in ("dict", "list"):
        for k, v in p.items() if kind == "dict" else enumerate(p):
            if v[0] in ("dict", "list", "sc"):
                yield from spots(child(node, k), v)
    elif kind == "sc":
        for k in ("leaf",):
            if k in p[1]:
                yield from spots(child(node, k), p[1][k])


def change(w, root, s):
    r = w.r
    node, spec = r.choice(list(spots(root, s)))
    kind, p = spec
    if kind == "sc":
        k = r.choice(["n", "u", "i", "e"])
        v = {
            "n": r.choice([val(5), ("missing", "any"), ("inter", "${held2}")]), "u": r.choice([val(3), val("s"), ("missing", "any"), ("inter", "${held}")]),
            "i": r.choice([val(2.5), ("inter", "a ${held}"), ("none", "any"), ("missing", "any")]), "e": r.choice([("none", "any"), val(Color.BLUE), ("missing", "any")]),
        }[k]  # fmt: skip
        w.mon.log("field", k, repr(v))
        if r.random() < 0.5:
            node[k] = w.value(v)
        else:
            OmegaConf.update(node, k, w.value(v))
        p[1][k] = v
        return
    v = w.spec(2)
    x = w.value(v)
    if kind == "dict":
        typed = node._metadata.key_type is Color
        k = r.choice(["a", "b", "new", 7, Color.RED] if not typed else list(Color))
        if k in ("held", "hd"):
            return
        w.mon.log("dict", repr(k), repr(v))
        if k in p and r.random() < 0.3:
            del node[k]
            del p[k]
        elif p.get(k, ("", ""))[1] == "sc":
            return  # stays typed
        elif isinstance(k, str) and r.random() < 0.4:
            setattr(node, k, x)
            p[k] = v
        else:
            node[k] = x
            p[k] = v
        return
    if node._metadata.element_type is not Any:
        if p and r.random() < 0.5:
            del node[0]
            del p[0]
        else:
            node.append(Leaf)
            p.append(leaf_spec())
        return
    op = r.choice(["append", "insert", "set", "del", "pop"])
    w.mon.log("list", op, repr(v))
    if op == "append" or not p:
        node.append(x)
        p.append(v)
    elif op == "insert":
        i = r.randint(0, len(p))
        node.insert(i, x)
        p.insert(i, v)
    elif op == "set":
        i = r.randrange(len(p))
        if p[i][1] == "sc":
            return
        node[i] = x
        p[i] = v
    else:
        i = r.randrange(len(p))
        if op == "del" or p[i][0] in ("inter", "cinter", "missing"):
            del node[i]
        else:
            node.pop(i)
        del p[i]


def setup(scratch):
    warnings.simplefilter("ignore")
    OmegaConf.clear_resolvers()


def case(rng, mon, i):
    w = W(rng, mon)
    s = ("dict", {"held": val("HELD"), "held2": val(2), "hd": ("dict", {}), "t": w.spec(3), "u": w.spec(2), "s": rng.choice([leaf_spec, branch_spec])()})
    cfg = OmegaConf.create(w.value(s), flags={"allow_objects": True} if w.objects else None)
    mon.log("create", shown(s))
    everywhere(w, cfg, s)
    for _ in range(rng.randint(2, 6)):
        change(w, cfg, s)
        everywhere(w, cfg, s)
    # what is no config
    for v in (None, 1, "x", {}, [], {"a": 1}, Leaf, Leaf(), OBJ, Path("x"), Color.RED):
        mon.check(not (OmegaConf.is_config(v) or OmegaConf.is_list(v) or OmegaConf.is_dict(v)), f"{v!r} is taken for a config", "is_config")
    for v in rng.sample([{}, [], "x", 3, None], 2):
        mon.check(not isinstance(v, Container), "plain", "is_config")
