"""C29: the built-in resolvers return what their documentation says."""
import copy
import os
import warnings
from dataclasses import dataclass, field
from typing import Any, Dict, Optional, Union

from omegaconf import MISSING, DictConfig, ListConfig, OmegaConf
from omegaconf.base import Container
from omegaconf.errors import InterpolationResolutionError, InterpolationToMissingValueError

from ocv import inter
from ocv.gen import Color, G, same
from ocv.inter import Err
from ocv.snap import keys_of, raw

CASE_CPU_LIMIT = 120.0
FIELDS = {
    "n": 3, "s": "x", "m": "???", "d": {"k": 1}, "oi": None, "os": None, "oe": None, "u": None, "od": None, "dl": {"n": None, "z": 0},
    "z": 0, "f": False, "e": "", "md": "???",
}  # fmt: skip


@dataclass
class Fields:
    n: int = 3
    s: str = "x"
    m: int = MISSING
    d: Dict[str, int] = field(default_factory=lambda: {"k": 1})
    oi: Optional[int] = None
    os: Optional[str] = None
    oe: Optional[Color] = None
    u: Union[int, str, None] = None
    od: Optional[Dict[str, int]] = None
    dl: Dict[str, Optional[int]] = field(default_factory=lambda: {"n": None, "z": 0})
    z: int = 0
    f: bool = False
    e: str = ""
    md: Dict[str, int] = MISSING


def setup(scratch):
    warnings.simplefilter("ignore")
    OmegaConf.clear_resolvers()


# ------------------------------------------------------------------ built-in resolvers
WORDY = ["", "a", "a b", "12", "1.5", "true", "null", "x,y", "[1,2]", "{a: 1}", "é", "a'b", '"', "\\", "a\\b", "${x}", "$", "???", ":", "1e3", " pad "]


def t_env(rng, mon):
    var = "OCV_" + rng.choice(["V", "W1", "_z"])
    default = rng.choice([None, "none", "null", 5, 1.5, True, "d f", "", [1, "a"], {"a": 1}, "ref", 0, False, 0.0, -1, "0", [], {}, "False", " "])
    val = rng.choice(WORDY) if rng.random() < 0.6 else None
    os.environ.pop(var, None)
    if val is not None:
        os.environ[var] = val
    tree = {"var": var, "dflt": default, "plain": 3}
    if default == "none":
        expr = "${oc.env:${var}}" if rng.random() < 0.5 else "${oc.env:" + var + "}"
    else:
        txt = rng.choice(["${dflt}", None]) if not isinstance(default, (list, dict)) else "${dflt}"
        if txt is None:
            txt = "null" if default is None else f"'{default}'" if isinstance(default, str) else str(default)
        expr = "${oc.env:" + var + "," + txt + "}"
    cfg = OmegaConf.create({**tree, "x": expr})
    mon.log("env", expr, repr(val), repr(default))
    for _ in range(2):
        if val is not None:
            want = val
        elif default == "none":
            want = KeyError
        else:
            want = None if default is None else str(default)
        try:
            got = cfg.x
        except InterpolationResolutionError as e:
            got = KeyError
            mon.check(var in str(e), f"the error of {expr} does not name the variable: {e}", "oc.env")
        mon.check(got is want or same(got, want), f"{expr} with {var}={val!r} and default {default!r} gives {got!r}, expected {want!r}", "oc.env")
        mon.ev("env_agreed")
        # no caching
        val = rng.choice(WORDY)
        os.environ[var] = val
    os.environ.pop(var, None)


def t_decode(rng, mon):
    gen = inter.Gen(rng, lambda r: (0, ["plain"]) if r.random() < 0.7 else (1, ["rel"]), resolvers=(), depth=2)
    text, tree = gen.element(2)
    bad = rng.random() < 0.1
    v = text if not bad else rng.choice([3, 1.5, True, [1], {"a": 1}, b"x"])
    if rng.random() < 0.05:
        v, bad = None, False
    if isinstance(v, str) and (v == "???" or v.strip() != v):
        return
    cfg = OmegaConf.create({"plain": "P", "sub": {"rel": 7, "x": "${oc.decode:${oc.env:OCV_D,null}}", "y": "${oc.decode:${..src}}"}, "src": None})
    e = inter.Env({"plain": "P", "sub": {"rel": 7, "x": 0}}, {}, node_str=str)
    if v is None:
        want = None
    elif not bad:
        try:
            want = inter.evaluate(tree, e, ("sub", "x"))
        except Err as x:
            want = x
    os.environ.pop("OCV_D", None)
    if isinstance(v, str) and "\0" not in v:
        os.environ["OCV_D"] = v
    mon.log("decode", repr(v))
    ways = ["y"] if bad or (isinstance(v, str) and "${" in v) else ["x", "y"]
    if isinstance(v, str) and "${" in v:
        ways = ["x"]
    cfg.src = v if "y" in ways else None
    for k in ways:
        try:
            got, exc = cfg.sub[k], None
        except InterpolationResolutionError as x:
            got, exc = None, x
        if bad or isinstance(want, Err):
            mon.check(exc is not None, f"oc.decode of {v!r} gives {got!r}", "oc.decode")
        else:
            mon.check(exc is None and same(got, want), f"oc.decode of {v!r} gives {got!r} {exc!r:.200}, expected {want!r}", "oc.decode")
        mon.ev("decode_agreed")
    os.environ.pop("OCV_D", None)


def t_select(rng, mon):
    cfg = OmegaConf.create(
        {"a": {"b": 1, "m": "???", "n": None, "l": [1, "???", None, "x"], "i": "${..z}", "bad": "${nope}"}, "z": "zed", "a:b": 10, "d": "dflt", "hole": "???"}
    )
    spec = {
        "a.b": 1, "a.m": "none", "a.n": None, "a.l[0]": 1, "a.l.3": "x", "a.l[1]": "none", "a.l[2]": None, "a.i": "zed", "z": "zed", "a:b": 10,
        "nope": "none", "a.nope": "none", "nope.x": "none", "a.l[9]": "none", "a.m.x": "none", "hole": "none", "hole.x": "none",
    }  # fmt: skip
    rel = {".b": 1, "..z": "zed", ".l[0]": 1, ".nope": "none", "..nope": "none", ".m": "none", "..a.b": 1}
    inside = rng.random() < 0.4
    key = rng.choice(list(rel) if inside else list(spec))
    want = (rel if inside else spec)[key]
    d = rng.choice(["absent", 5, "word", None, "${d}", "${z}", [1, "x"]])
    dt = {None: "null"}.get(d, str(d).replace("'", "")) if not isinstance(d, list) else "[1,x]"
    expr = "${oc.select:'" + key + "'" + ("" if d == "absent" else "," + dt) + "}"
    if rng.random() < 0.3:
        expr = "pre " + expr
    target = cfg.a if inside else cfg
    target["q"] = expr
    dv = {"absent": None, "${d}": "dflt", "${z}": "zed"}.get(d, d) if not isinstance(d, list) else d
    if want == "none":
        want = dv
    if expr.startswith("pre "):
        want = f"pre {want}"
    got = target.q
    mon.log("select", expr)
    mon.check(same(got, want), f"{expr} gives {got!r}, expected {want!r}", "oc.select")
    mon.ev("select_agreed")


def t_dict(rng, mon):
    g = G(rng)
    items = {}
    for k in rng.sample(["a", "b", "c_d", "x1", "e-f", "7", "é"], rng.randint(0, 5)):
        v = rng.choice([g.prim(), g.prim(), {"s": 1}, [1, 2], "${other}"])
        if isinstance(v, str) and v != "${other}" and ("${" in v or v == "???"):
            v = "s"
        items[k] = v
    where = rng.choice(["top", "nested", "relative"])
    tree = {"other": "OTHER", "n": {"d": items, "y": "zz"}, "d": items}
    key = {"top": "d", "nested": "n.d", "relative": ".d"}[where]
    if where == "relative":
        tree["n"]["k"], tree["n"]["v"] = "${oc.dict.keys:.d}", "${oc.dict.values:.d}"
    else:
        tree["k"], tree["v"] = "${oc.dict.keys:%s}" % key, "${oc.dict.values:%s}" % key
    cfg = OmegaConf.create(tree)
    at = cfg.n if where == "relative" else cfg
    d = cfg.d if where == "top" else cfg.n.d
    mon.log("oc.dict", repr(tree))
    for _ in range(2):
        ks, vs = at.k, at.v
        mon.check(isinstance(ks, ListConfig) and raw(ks) == list(d.keys()), f"oc.dict.keys of {raw(d)} gives {ks!r}", "oc.dict")
        mon.check(isinstance(vs, ListConfig) and len(vs) == len(d), f"oc.dict.values of {raw(d)} gives {vs!r}", "oc.dict")
        for n, k in enumerate(d):
            mon.check(vs[n] is d[k] if isinstance(d[k], Container) else same(vs[n], d[k]), f"value {n} of oc.dict.values is {vs[n]!r}, the dict has {d[k]!r} at {k!r}", "oc.dict")
        mon.ev("dicts_agreed")
        # the values follow the dict
        vs = at.v
        for n, k in enumerate(list(d)):
            if not isinstance(d[k], Container):
                d[k] = f"new{n}"
                mon.check(vs[n] == f"new{n}", f"value {n} of oc.dict.values is {vs[n]!r} after the dict changed", "oc.dict")
        d["added"] = 1
    for f in ("keys", "values"):
        for bad in ("other", "nope", "n.y", "0"):
            c = OmegaConf.create({**tree, "q": "${oc.dict.%s:%s}" % (f, bad)})
            try:
                got = c.q
                mon.fail(f"oc.dict.{f}:{bad} gives {got!r}", "oc.dict")
            except InterpolationResolutionError:
                mon.ev("errors_agreed")


def t_deprecated(rng, mon):
    v = rng.choice([1, "x", None, {"a": 1}, [1]])
    msg = rng.choice([None, "use $NEW_KEY", "$OLD_KEY gone", "no keys", "$OTHER $$ $NEW_KEY"])
    key = rng.choice(["shiny", "n.shiny", "..shiny", ".shiny"])
    expr = "${oc.deprecated:" + key + ("" if msg is None else ",'" + msg + "'") + "}"
    cfg = OmegaConf.create({"shiny": v, "real": 9, "n": {"shiny": v, "old": expr}})
    where = "n.old"
    new = {"shiny": "shiny", "n.shiny": "n.shiny", "..shiny": "shiny", ".shiny": "n.shiny"}[key]
    n = rng.randint(1, 3)
    mon.log("deprecated", expr, repr(v))
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        for _ in range(n):
            got = cfg.n.old
        want = OmegaConf.select(cfg, new)
        mon.check(got is want or same(got, want), f"{expr} gives {got!r}, expected {want!r}", "oc.deprecated")
    text = (msg or "'$OLD_KEY' is deprecated. Change your code and config to use '$NEW_KEY'").replace("$OLD_KEY", where).replace("$NEW_KEY", new).replace("$$", "$")
    got = [str(x.message) for x in log]
    mon.check(got == [text] * n and all(x.category is UserWarning for x in log), f"{n} reads of {expr} warn {got}, expected {text!r} each time", "oc.deprecated")
    c = OmegaConf.create({"old": "${oc.deprecated:nope}"})
    try:
        c.old
        mon.fail("oc.deprecated of an unknown key does not fail", "oc.deprecated")
    except InterpolationResolutionError:
        mon.ev("deprecated_agreed")


def t_create(rng, mon):
    g = G(rng)
    t = g.tree(2)
    if not isinstance(t, (dict, list)):
        t = {"a": t}
    holder = rng.choice(["result", "yaml", "ref"])
    mon.log("create", holder, repr(t))
    OmegaConf.register_new_resolver("ocv_make", lambda: copy.deepcopy(t), replace=True)
    plain = OmegaConf.create(t)
    src = {"result": "${oc.create:${ocv_make:}}", "yaml": "${oc.create:${y}}", "ref": "${oc.create:${t}}"}[holder]
    if holder == "yaml":
        y = "a: 1\nb:\n- x\n- ${..z}\nz: ${top}\n"
        cfg = OmegaConf.create({"n": {"x": "${oc.create:${oc.env:OCV_Y}}"}, "top": "TOP"})
        os.environ["OCV_Y"] = y
        mon.check(cfg.n.x == {"a": 1, "b": ["x", "TOP"], "z": "TOP"}, f"oc.create of YAML gives {cfg.n.x!r}", "oc.create")
        mon.check(cfg.n.x._get_parent() is cfg.n, "the parent of the created config is not the parent of the field", "oc.create")
        os.environ["OCV_Y"] = "a: 2"
        mon.check(raw(cfg.n.x) == {"a": 2}, "the created config does not follow its source", "oc.create")
    else:
        cfg = OmegaConf.create({"n": {"x": src}, "t": t})
        got = cfg.n.x
        mon.check(type(got) is type(plain) and raw(got) == raw(plain) or repr(raw(got)) == repr(raw(plain)), f"oc.create gives {got!r}, expected {plain!r}", "oc.create")
        mon.check(got is not cfg.n.x, "two reads of an oc.create field share one node", "oc.create")
        mon.check(got._get_root() is cfg, "a created config does not belong to its config", "oc.create")
    OmegaConf.clear_resolver("ocv_make")
    mon.ev("create_agreed")


# ------------------------------------------------------------------ random trees, keys from anywhere
def tree_of(rng, depth=3):
    if depth == 0 or rng.random() < 0.35:
        return rng.choice([1, 2.5, True, None, "word", "a b", "", "???", "12", b"x", Color.RED, HOLD, HOLD])
    n = rng.randint(0, 3)
    if rng.random() < 0.35:
        return [tree_of(rng, depth - 1) for _ in range(n)]
    return {k: tree_of(rng, depth - 1) for k in rng.sample(["a", "b", "c", "d_1", "e-f", "7"], n)}


class Hold:
    """An interpolation to the held value at the top."""

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "HOLD"


HOLD = Hold()


def text(t):
    if t is HOLD:
        return "${held}"
    if isinstance(t, dict):
        return {k: text(v) for k, v in t.items()}
    return [text(v) for v in t] if isinstance(t, list) else t


def paths(t, p=()):
    yield p, t
    if isinstance(t, (dict, list)):
        for k, v in t.items() if isinstance(t, dict) else enumerate(t):
            yield from paths(v, p + (k,))


def spell(rng, path):
    out = ""
    for n, k in enumerate(path):
        if isinstance(k, int) and rng.random() < 0.6 or rng.random() < 0.2:
            out += f"[{k}]"
        else:
            out += f".{k}" if n else str(k)
    return out


def walk(t, path):
    """What is at a path: the value, or ABSENT."""
    for k in path:
        if isinstance(t, dict) and k in t:
            t = t[k]
        elif isinstance(t, list) and not str(k).isdigit():
            return NO_POSITION
        elif isinstance(t, list) and int(k) < len(t):
            t = t[int(k)]
        else:
            return ABSENT
    return ABSENT if t == "???" else t


ABSENT = object()
NO_POSITION = object()


def whole(v):
    return OmegaConf.to_container(v, resolve=True) if isinstance(v, Container) else v


def same_tree(a, b):
    """Same content, where a held interpolation stands for the held value; missing values are kept."""
    if b is HOLD:
        b = "HELD"
    if isinstance(b, dict):
        return type(a) is dict and list(a) == list(b) and all(same_tree(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return type(a) is list and len(a) == len(b) and all(map(same_tree, a, b))
    return same(a, b)


def place(rng, tree):
    """Somewhere to put a field: the path of a dict of the tree, and how to spell absolute paths from there."""
    spots = [p for p, t in paths(tree) if isinstance(t, dict)]
    return rng.choice(spots)


def reference(rng, spot, path):
    """A spelling of an absolute path as seen from a field of the dict at spot."""
    m = 0
    while m < min(len(spot), len(path)) and spot[m] == path[m]:
        m += 1
    if rng.random() < 0.5:
        return spell(rng, path)
    up = rng.randint(0, m)
    rest = path[up:]
    s = spell(rng, rest)
    return "." * (len(spot) - up + 1) + s


def t_select_any(rng, mon):
    tree = {"t": tree_of(rng), "held": "HELD", "z": {}}
    cand = list(paths(tree))
    spot = place(rng, tree)
    path = rng.choice(cand)[0]
    if rng.random() < 0.3 or not path:
        path = path + (rng.choice(["nope", "a", 0, 5]),)
    if len(path) > 1 and rng.random() < 0.1:
        path = path[:-2] + ("gone",) + path[-1:]
    if spot[: len(path)] == path:
        return mon.ev("parents_skipped")
    key = reference(rng, spot, path)
    d = rng.choice(["absent", 5, "word", None, "${held}", [1, "x"], "${t}" if spot[:1] == ("z",) and tree["t"] != "???" else 3])
    dt = "" if d == "absent" else "," + ({None: "null"}.get(d, str(d)) if not isinstance(d, list) else "[1,x]")
    how = rng.choice(["quoted", "held"])
    cfg = OmegaConf.create(text(tree))
    if rng.random() < 0.4:
        cfg["sc"] = Fields
        tree = {**tree, "sc": FIELDS}
        path = rng.choice(list(paths({"sc": FIELDS})))[0][1:] if rng.random() < 0.8 else ("x",)
        path = ("sc",) + path
        key = reference(rng, spot, path)
    cfg["key"] = key
    expr = "${oc.select:" + (f"'{key}'" if how == "quoted" else "${key}") + dt + "}"
    node = cfg
    for k in spot:
        node = node[k]
    node["q"] = expr
    want = walk(tree, path)
    mon.log("select any", repr(tree), repr(spot), expr)
    if want is ABSENT:
        want = {"absent": None, "${held}": "HELD", "${t}": walk(tree, ("t",))}.get(d, d) if not isinstance(d, list) else d
        if want is ABSENT:
            return mon.ev("defaults_missing")
        mon.ev("select_defaults")
    if want is NO_POSITION:
        try:
            got = node.q
        except InterpolationResolutionError:
            return mon.ev("bad_positions")
        mon.fail(f"{expr} gives {got!r}: a list has no such position", "oc.select")
    # the field itself may lie below what is selected
    got = node.q
    if isinstance(got, Container):
        mon.check(isinstance(want, (dict, list)), f"{expr} gives {got!r}, expected {want!r}", "oc.select")
        below = list(keys_of(got))
        wk = list(want) if isinstance(want, dict) else list(range(len(want)))
        extra = [k for k in below if k not in wk]
        mon.check([k for k in below if k in wk] == wk and not set(extra) - {"q", "key"}, f"{expr} gives {got!r}, expected {want!r}", "oc.select")
        if walk(tree, path) is not ABSENT:
            at = cfg
            for k in path:
                at = at[int(k) if isinstance(at, ListConfig) else k]
            mon.check(got is at, f"{expr} does not give the container itself", "oc.select")
    else:
        mon.check(same_tree(got, want), f"{expr} gives {got!r}, expected {want!r}", "oc.select")
    mon.ev("select_any_agreed")


def t_values_any(rng, mon):
    tree = {"t": tree_of(rng), "held": "HELD", "z": {"a": 1, "b": HOLD, "c": "???", "d": {"x": HOLD}, "e": [HOLD]}}
    kind = rng.choice(["dict", "dict", "alias", "typed", "structured"])
    cand = [p for p, t in paths(tree) if isinstance(t, dict) and p]
    path = rng.choice(cand)
    spot = rng.choice([p for p, t in paths(tree) if isinstance(t, dict)])
    cfg = OmegaConf.create(text(tree))
    want = walk(tree, path)
    if kind == "typed":
        want = {Color.RED: 1, Color.GREEN: None} if rng.random() < 0.5 else {"x": 1, "y": 2, "z-1": None}
        cfg["typed"] = DictConfig(want, key_type=Color if Color.RED in want else str, element_type=Any)
        path = ("typed",)
    elif kind == "structured":
        want = dict(FIELDS)
        cfg["sc"] = OmegaConf.structured(Fields)
        path = ("sc",)
    key = reference(rng, spot, path)
    if kind == "alias":
        cfg["alias"] = "${" + spell(rng, path) + "}"
        key = reference(rng, spot, ("alias",))
    node = cfg
    for k in spot:
        node = node[k]
    mon.log("values any", repr(tree), repr(spot), key, kind)
    lists = {}
    for f in ("keys", "values"):
        if rng.random() < 0.3:
            node["q"] = OmegaConf.create({"in": "${oc.dict.%s:'%s'}" % (f, "." + key if key.startswith(".") else key)})
            lists[f] = node.q["in"]
        else:
            node["q"] = "${oc.dict.%s:'%s'}" % (f, key)
            lists[f] = node.q
        if isinstance(want, dict) and spot == path:
            want = {**want, "q": None}
            want.pop("q")
            if f == "keys" and list(lists[f]) and lists[f][-1] == "q":
                lists[f] = list(lists[f])[:-1]
    ks, vs = lists["keys"], lists["values"]
    mon.check(list(ks) == list(want) and all(type(a) is type(b) for a, b in zip(ks, want)), f"oc.dict.keys:{key} at {spot} gives {ks!r}, expected {list(want)!r}", "oc.dict")
    extra = 1 if spot == path else 0
    mon.check(len(vs) == len(want) + extra, f"oc.dict.values:{key} at {spot} gives {vs!r}, expected the values of {want!r}", "oc.dict")
    for n, (k, v) in enumerate(want.items()):
        if spot[: len(path) + 1] == path + (k,):
            continue  # holds the field itself
        try:
            got = vs[n]
        except InterpolationToMissingValueError:
            mon.check(v == "???", f"value {n} of oc.dict.values:{key} at {spot} is missing, expected {v!r}", "oc.dict")
            mon.ev("missing_values")
            continue
        mon.check(v != "???", f"value {n} of oc.dict.values:{key} is {got!r}, it is missing in the dict", "oc.dict")
        mon.check(same_tree(whole(got), v), f"value {n} of oc.dict.values:{key} at {spot} is {got!r}, expected {v!r}", "oc.dict")
    mon.ev("values_any_agreed")


def t_deprecated_any(rng, mon):
    tree = {"t": tree_of(rng), "held": "HELD", "z": {"a": 1}}
    cand = [(p, t) for p, t in paths(tree) if p and t is not HOLD and not (isinstance(t, str) and t == "???")]
    path = rng.choice(cand)[0]
    spot = rng.choice([p for p, t in paths(tree) if isinstance(t, dict) and p[: len(path)] != path])
    key = reference(rng, spot, path)
    msg = rng.choice([None, "use $NEW_KEY", "$OLD_KEY gone", "${NEW_KEY}!", "$NEW_KEYS $ $$"])
    if msg and "{" in msg:
        msg = "\\" + msg
    expr = "${oc.deprecated:'" + key + "'" + ("" if msg is None else ",'" + msg + "'") + "}"
    cfg = OmegaConf.create(text(tree))
    node = cfg
    for k in spot:
        node = node[k]
    node["old"] = expr
    mon.log("deprecated any", repr(tree), repr(spot), expr)
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        got = node.old
    at = cfg
    for k in path:
        at = at[k]
    mon.check(got is at or same(got, at), f"{expr} gives {got!r}, expected {at!r}", "oc.deprecated")

    def full(p):
        out = ""
        for n, k in enumerate(p):
            out += f"[{k}]" if isinstance(k, int) else f".{k}" if n else str(k)
        return out

    want = (msg or "'$OLD_KEY' is deprecated. Change your code and config to use '$NEW_KEY'").replace("\\", "")
    want = want.replace("$$", "\0").replace("$OLD_KEY", full(spot + ("old",)))
    if "$NEW_KEYS" not in want:
        want = want.replace("$NEW_KEY", full(path)).replace("${NEW_KEY}", full(path))
    want = want.replace("\0", "$")
    seen = [str(x.message) for x in log]
    mon.check(seen == [want], f"reading {expr} warns {seen}, expected {want!r}", "oc.deprecated")
    mon.ev("deprecated_any_agreed")


def t_create_any(rng, mon):
    """A created config is part of the config it is read from: parents, flags, references."""
    inner = tree_of(rng)
    if not isinstance(inner, (dict, list)):
        inner = {"a": inner}
    body = text(inner)
    made = copy.deepcopy(body)
    climbs = []
    for p, v in paths(inner):
        if isinstance(v, (dict, list)):
            up = rng.randint(0, 3)
            at = made
            for k in p:
                at = at[k]
            # the created config takes the place of the field: its parent is the dict of the field
            ref = "${" + "." * (len(p) + 1 + up + 1) + "mark}"
            if isinstance(at, dict):
                at["climb"] = ref
                climbs.append((p + ("climb",), up))
            else:
                at.append(ref)
                climbs.append((p + (len(at) - 1,), up))
    body = made
    field_ = "${oc.create:${ocv_make:}}"
    in_list = rng.random() < 0.4
    cfg = OmegaConf.create({"n": {"deep": {"x": field_, "mark": 0}, "mark": 1}, "held": "HELD", "mark": 2})
    if in_list:
        cfg.n.deep.x = [field_]
    OmegaConf.register_new_resolver("ocv_make", lambda: copy.deepcopy(body), replace=True)
    ro, st = rng.choice([None, True, False]), rng.choice([None, True, False])
    at = rng.choice([cfg, cfg.n, cfg.n.deep])
    OmegaConf.set_readonly(at, ro)
    OmegaConf.set_struct(at, st)
    mon.log("create any", repr(inner), ro, st)
    got = cfg.n.deep.x[0] if in_list else cfg.n.deep.x
    for p, up in climbs:
        node = got
        for k in p[:-1]:
            node = node[k]
        want = up - in_list
        if want < 0:
            continue
        if want > 2:
            try:
                v = node[p[-1]]
            except InterpolationResolutionError:
                mon.ev("climbs_refused")
                continue
            mon.fail(f"a reference from {p} of a created config beyond the root gives {v!r}", "oc.create")
        mon.check(node[p[-1]] == want, f"a reference from {p} of a created config, {up} levels above it, gives {node[p[-1]]!r}", "oc.create")
        mon.ev("climbs_agreed")
    mon.check(OmegaConf.is_readonly(got) is (ro or None) or bool(OmegaConf.is_readonly(got)) == bool(ro), "the created config does not inherit the read-only flag", "oc.create")
    mon.check(bool(OmegaConf.is_struct(got)) == bool(st), "the created config does not inherit the struct flag", "oc.create")
    for p, v in paths(inner):
        if v is HOLD:
            node = got
            for k in p:
                node = node[k]
            mon.check(node == "HELD", f"the reference at {p} in a created config gives {node!r}", "oc.create")
    if not climbs:
        mon.check(same_tree(whole(got), inner), f"oc.create gives {got!r}, expected {inner!r}", "oc.create")
    mon.check(raw(got) == body or repr(raw(got)) == repr(body), f"oc.create gives {got!r}, expected {body!r}", "oc.create")
    OmegaConf.clear_resolver("ocv_make")
    mon.ev("create_any_agreed")


TASKS = [t_env, t_decode, t_select, t_dict, t_deprecated, t_create, t_select_any, t_select_any, t_values_any, t_values_any, t_deprecated_any, t_create_any]


def case(rng, mon, i):
    OmegaConf.clear_resolvers()
    for _ in range(8):
        rng.choice(TASKS)(rng, mon)
