"""C19: dumping to YAML and loading again gives the same content."""
import enum
import io
import math
import os
import pathlib
import tempfile
import warnings

import yaml
from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.errors import InterpolationResolutionError, UnsupportedInterpolationType

from ocv import types_ as T
from ocv.gen import G, same
from ocv.snap import containers, keys_of, raw, snap, special
from ocv.world import World

SCRATCH = None
CHARS = [
    "a", "b", "0", "1", ".", "_", "-", "+", "e", "E", ":", " ", "  ", "\n", "\t", "'", '"', "\\", "#", "%", "&", "*", "!", "|", ">", "?", "@", "`",
    "=", "~", "<", "\r", "\x85", "\u2028", "é", "日", "\x00", "\x7f", "\ufeff", "😀", ",", "[", "]", "{", "}", "(", ")", "x" * 40, "word " * 8,
    " \n", "\n ", "\n\n", "null", "true", "yes", "0x1", "1:30", "<<", "---", "...", "- ", "? ", ": ", "12", "1e5", "0b", "0o", "inf", "nan",
]  # fmt: skip


def setup(scratch):
    warnings.simplefilter("ignore")
    OmegaConf.clear_resolvers()
    OmegaConf.register_new_resolver("ocv_id", lambda x=None, *r: x)


def wild(r):
    while True:
        s = "".join(r.choice(CHARS) for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6, 12, 30])))
        if "${" not in s and s != "???":
            return s


def number_like(r):
    """Strings made of the characters of YAML numbers, booleans and nulls."""
    k = r.random()
    if k < 0.5:
        return "".join(r.choice("0123456789._-+eExob:nNaAiIfF") for _ in range(r.randint(1, 6)))
    sign = r.choice(["", "-", "+"])
    return sign + r.choice(
        ["%d", "%d.", ".%d", "%d.%d", "%de%d", "%d.%de+%d", "0x%d", "0b1%d", "0%d", "0o%d", "%d:%d", "%d_%d", "%d._%d", "_%d", ".%d_%d", "%d.%de%d", "1:%d.%d", ".inf", ".nan", "inf"]
    ).replace("%d", str(r.choice([0, 1, 5, 10, 30, 59]))) + r.choice(["", "", "", " ", "_", "e", "."])


def named(x):
    """Content as YAML expresses it: enums by name."""
    if isinstance(x, enum.Enum):
        return x.name
    if type(x) is dict:
        out = {}
        for k, v in x.items():
            k = k.name if isinstance(k, enum.Enum) else k
            if k in out:
                return None
            out[k] = named(v)
        return out
    if type(x) in (list, tuple):
        return [named(v) for v in x]
    return x


def ordered(x):
    """Keys sorted the way a dump with sorted keys must show them."""
    if type(x) is dict:
        items = [(k, ordered(v)) for k, v in x.items()]
        try:
            items.sort(key=lambda i: i[0])
        except TypeError:
            return dict(items)
        return dict(items)
    if type(x) is list:
        return [ordered(v) for v in x]
    return x


def uniform(x):
    """Are the keys of every dict comparable?"""
    if type(x) is dict:
        try:
            sorted(x)
        except TypeError:
            return False
        return all(uniform(v) for v in x.values())
    return all(map(uniform, x)) if type(x) is list else True


def config(rng, mon):
    g = G(rng)
    x = rng.random()
    if x < 0.5:
        w = World(rng, mon, inter=0.12, missing=0.08, kinds="ussdl")
        cfg = w.cfg
        if special(cfg):
            cfg = OmegaConf.create({"a": cfg})
        return cfg
    def leaf():
        k = rng.random()
        if k < 0.35:
            return wild(rng)
        if k < 0.6:
            return number_like(rng)
        if k < 0.7:
            return rng.choice(["???", "${a}", "${a.b}/c", "x ${oc.env:OCV_Q,'a b'} \\${y}", "${ocv_id:{a: 1},[x]}"])
        return g.prim(nan=True)

    def tree(d, root=None):
        root = root or rng.choice(["leaf", "leaf", "dict", "list", "tuple"])
        if d <= 0 or root == "leaf":
            return leaf()
        n = rng.choice([0, 1, 1, 2, 3, 5])
        if root == "dict":
            return {(rng.choice([wild, number_like])(rng) if rng.random() < 0.6 else g.key("ssifbB")): tree(d - 1) for _ in range(n)}
        out = [tree(d - 1) for _ in range(n)]
        return tuple(out) if root == "tuple" else out

    t = tree(rng.randint(1, 4), rng.choice(["dict", "list"]))
    if rng.random() < 0.2:
        shared = rng.choice([pathlib.Path("/same"), b"same bytes", "same", [1, {"k": "v"}], {"a": []}])
        t = {"t": t, "s1": shared, "s2": [shared, shared], "s3": {"x": shared}}
    mon.log("create", repr(t))
    return OmegaConf.create(t)


def load_every_way(rng, text, mon):
    way = rng.choice(["create", "load text", "load bytes file", "path", "str path"])
    if way == "create":
        return way, OmegaConf.create(text)
    if way == "load text":
        return way, OmegaConf.load(io.StringIO(text))
    fd, name = tempfile.mkstemp(dir=SCRATCH, suffix=".yaml")
    os.close(fd)
    try:
        with open(name, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        if way == "load bytes file":
            with open(name, "rb") as f:
                return way, OmegaConf.load(f)
        return way, OmegaConf.load(pathlib.Path(name) if way == "path" else name)
    finally:
        os.unlink(name)


def save_every_way(rng, cfg, resolve):
    way = rng.choice(["path", "str", "text file", "StringIO"])
    name = tempfile.mktemp(dir=SCRATCH, suffix=".yaml")
    if way == "StringIO":
        f = io.StringIO()
        OmegaConf.save(cfg, f, resolve=resolve)
        return way, f.getvalue()
    try:
        if way == "text file":
            with open(name, "w", encoding="utf-8") as f:
                OmegaConf.save(cfg, f, resolve)
        else:
            with open(name, "w", encoding="utf-8") as f:
                f.write("old content that is longer: than the new one\n" * 3)
            OmegaConf.save(config=cfg, f=pathlib.Path(name) if way == "path" else name, resolve=resolve)
        with open(name, encoding="utf-8", newline="") as f:
            return way, f.read()
    finally:
        if os.path.exists(name):
            os.unlink(name)


def types_of(cfg):
    return [type(c).__name__ for _, c in containers(cfg)]


def round_trip(rng, mon):
    cfg = config(rng, mon)
    parts = [c for _, c in containers(cfg) if not special(c)]
    if rng.random() < 0.4:
        cfg = rng.choice(parts)
    want = named(raw(cfg))
    if want is None or "None-key" in repr(want):
        return
    before = snap(cfg, ids=True)
    for sort in (False, True):
        text = OmegaConf.to_yaml(cfg, sort_keys=sort)
        if rng.random() < 0.3 and not sort:
            way, text = save_every_way(rng, cfg, False)
            mon.check(text == OmegaConf.to_yaml(cfg), f"saving by {way} writes {text!r}, to_yaml gives {OmegaConf.to_yaml(cfg)!r}", "save")
            mon.ev("saves_agreed")
        way, back = load_every_way(rng, text, mon)
        x = ordered(want) if sort else want
        mon.check(type(back) is type(cfg), f"{way} of {text!r} gives a {type(back).__name__}", "kind")
        if sort and not uniform(want):
            mon.check(same(ordered(raw(back)), ordered(want)) or same_any_order(raw(back), want), f"{way} of {text!r} gives {raw(back)!r}, expected {x!r}", "content")
        else:
            mon.check(same(raw(back), x), f"{way} of {text!r} (sort_keys={sort}) gives {raw(back)!r}, expected {x!r}", "content")
        mon.ev("round_trips_agreed")
        # and the dump of the loaded config is the same text
        again = OmegaConf.to_yaml(back, sort_keys=sort)
        mon.check(again == text, f"dumping the loaded config gives {again!r}, it was {text!r}", "dump again")
    mon.check(before == snap(cfg, ids=True), "dumping changed the config", "changed")
    resolved(rng, mon, cfg)


def same_any_order(a, b):
    if type(a) is dict and type(b) is dict:
        return len(a) == len(b) and all(k in b and same_any_order(a[k], b[k]) for k in a)
    if type(a) is list and type(b) is list:
        return len(a) == len(b) and all(map(same_any_order, a, b))
    return same(a, b)


def resolved(rng, mon, cfg):
    try:
        content = OmegaConf.to_container(cfg, resolve=True, enum_to_str=True)
    except (InterpolationResolutionError, UnsupportedInterpolationType, RecursionError):
        try:
            OmegaConf.to_yaml(cfg, resolve=True)
        except (InterpolationResolutionError, UnsupportedInterpolationType, RecursionError):
            mon.ev("resolve_failures_agreed")
            return
        mon.fail("to_yaml(resolve) succeeds where to_container(resolve) fails", "resolve")
    text = OmegaConf.to_yaml(cfg, resolve=True)
    if rng.random() < 0.4:
        way, text2 = save_every_way(rng, cfg, True)
        mon.check(text2 == text, f"save with resolve by {way} writes {text2!r}, to_yaml(resolve) gives {text!r}", "resolve")
    # what the text holds, read by a plain YAML loader
    if "${" in repr(content):
        return
    back = OmegaConf.create(text)
    mon.check(same(raw(back), named(content)), f"the resolved dump {text!r} loads as {raw(back)!r}, expected {content!r}", "resolve")
    mon.check(text == OmegaConf.to_yaml(OmegaConf.create(content)), f"the resolved dump {text!r} is not the dump of the resolved content", "resolve")
    mon.ev("resolved_dumps_agreed")


# ------------------------------------------------------------------ documents written by hand
def sexa(*parts):
    v = 0
    for p in parts:
        v = v * 60 + p
    return v


PLAIN = {
    "null": None, "~": None, "Null": None, "NULL": None, "yes": True, "Yes": True, "NO": False, "no": False, "true": True, "False": False, "TRUE": True,
    "on": True, "Off": False, "ON": True, "0": 0, "12": 12, "-5": -5, "+5": 5, "017": 15, "0x1F": 31, "0b101": 5, "1_000": 1000, "-0x1f": -31,
    "1:30": 90, "190:20:30": sexa(190, 20, 30), "1.0": 1.0, "1.5": 1.5, "1e3": 1000.0, "1E-3": 0.001, "1.5e+3": 1500.0, ".5": 0.5, "1.": 1.0,
    "-.inf": -math.inf, ".Inf": math.inf, "+.INF": math.inf, "1_0.5": 10.5, "-1e5": -100000.0, "6.02e23": 6.02e23, "1e05": 100000.0,
    "2020-01-01": "2020-01-01", "2020-01-01 10:00:00": "2020-01-01 10:00:00", "1.2.3": "1.2.3", "e5": "e5", "08": "08", "0o17": "0o17", "y": "y", "N": "N",
    "nULL": "nULL", "tRUE": "tRUE", "yEs": "yEs", "None": "None", "inf": "inf", "nan": "nan", "1-1": "1-1", "a:b": "a:b", "a b": "a b", "x#y": "x#y",
    "???": "???", "-": "-", "=": "=", "1 2": "1 2", "0x": "0x", "0b2": "0b2", "1e": "1e", "++1": "++1", "_1": "_1", "é日": "é日", "/a/b": "/a/b",
    "a'b": "a'b", 'a"b': 'a"b', "a\\b": "a\\b", "${a}": "${a}", "http://x/y": "http://x/y", "1:60": "1:60", ".": ".", "..": "..", "0.0.1": "0.0.1",
}  # fmt: skip
del PLAIN["-"], PLAIN["="]


def emit_scalar(rng, flow):
    """(text, value)"""
    x = rng.random()
    if x < 0.6:
        t = rng.choice(list(PLAIN))
        if flow and any(c in t for c in ",[]{}:#?"):
            t = "12"
        return t, PLAIN[t]
    s = rng.choice([rng.choice(list(PLAIN)), number_like(rng), "plain text", "", " ", "it's", 'say "x"', "a: b", "# no"])
    if x < 0.8:
        return "'" + s.replace("'", "''") + "'", s
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"', s


def emit(rng, d, ind, flow):
    """(text, value); text starts on the current line for scalars and flow, on new lines for block collections."""
    k = rng.choice(["s", "s", "d", "l"]) if d > 0 else "s"
    if k == "s":
        return emit_scalar(rng, flow)
    n = rng.randint(1, 4)
    fl = flow or rng.random() < 0.3
    items = [emit(rng, d - 1, ind + 2, fl) for _ in range(n)]
    keys = {}
    if k == "d":
        while len(keys) < n:
            t, v = (emit_scalar(rng, True) if rng.random() < 0.4 else (lambda i: (i, i))(rng.choice(["a", "b", "c", "k1", "foo", "x-y", "a.b"])))
            if v is None or isinstance(v, float) and v != v or "${" in t or any(v == o and type(v) is type(o) or v == o for o in keys.values()):
                continue
            keys[t] = v
    pad = " " * ind
    if fl:
        if k == "d":
            return "{" + ", ".join(f"{kt}: {t}" for kt, (t, _) in zip(keys, items)) + "}", {kv: v for kv, (_, v) in zip(keys.values(), items)}
        return "[" + ", ".join(t for t, _ in items) + "]", [v for _, v in items]
    lines = []
    for kt, (t, _) in zip(list(keys) or [None] * n, items):
        com = rng.choice(["", "", "", "  # a comment: 'x"]) if not t.startswith("\n") else ""
        head = f"{pad}{kt}:" if k == "d" else f"{pad}-"
        lines.append(head + (t if t.startswith("\n") else " " + t + com))
        if rng.random() < 0.1:
            lines.append(rng.choice(["", pad + "# comment"]))
    text = "\n" + "\n".join(lines)
    return text, ({kv: v for kv, (_, v) in zip(keys.values(), items)} if k == "d" else [v for _, v in items])


def documents(rng, mon):
    for _ in range(6):
        text, want = emit(rng, rng.randint(1, 4), 0, False)
        if type(want) not in (dict, list):
            continue
        text = text.lstrip("\n")
        if rng.random() < 0.2:
            text = "---\n" + text
        mon.log("document", repr(text))
        way, back = load_every_way(rng, text + rng.choice(["", "\n", "\n\n"]), mon)
        mon.check(same(raw(back), want), f"{way} of {text!r} gives {raw(back)!r}, expected {want!r}", "document")
        mon.ev("documents_agreed")
    # anchors, aliases and merges
    a, b = rng.sample(["x", "y", "1", "k"], 2)
    text = f"base: &b\n  {a}: 1\n  l: [1, two]\nother: *b\nmore:\n  <<: *b\n  {b}: 2\n  l: 3\n"
    back = OmegaConf.create(text)
    ka, kb = (int(k) if k == "1" else k for k in (a, b))
    base = {ka: 1, "l": [1, "two"]}
    mon.check(raw(back.base) == base and raw(back.other) == base and raw(back.more) == {**base, kb: 2, "l": 3}, f"{text!r} loads as {raw(back)!r}", "document")
    back.base.l[0] = 5
    mon.check(back.other.l[0] == 1 and raw(back.more.l) == 3, f"an alias of {text!r} shares its node", "document")


def duplicates(rng, mon):
    """A duplicate key anywhere is rejected."""
    spellings = [["a", "'a'", '"a"', "? a\n"], ["1", "0x1", "01", "0b1"], ["true", "yes", "on"], ["1.5", "1.50"], ["foo bar", "'foo bar'"], ["é", "'é'"]]
    keys = rng.choice(spellings)
    k1, k2 = rng.choice(keys).replace("? a\n", "a"), rng.choice(keys).replace("? a\n", "a")
    others = [k for k in ["b", "c", "'1'", "'true'", "2", "z.z"] if k not in (k1, k2)]
    body = [f"{k1}: 1", *(f"{o}: x" for o in rng.sample(others, rng.randint(0, 3)))]
    good = "{" + ", ".join(body) + "}"
    body.insert(rng.randint(1, len(body)), f"{k2}: {rng.choice(['1', 'z', '[1]', 'null'])}")
    bad = "{" + ", ".join(body) + "}"
    if rng.random() < 0.5:
        good, bad = good[1:-1].replace(", ", "\n"), bad[1:-1].replace(", ", "\n")
        wrap = ["%s", "top:\n%I", "- 1\n-\n%I", "a:\n- b:\n%I"]
    else:
        wrap = ["%s", "top: %s", "- %s", "[1, %s]", "a: {b: [%s]}"]
    wr = rng.choice(wrap)

    def put(t):
        return wr.replace("%I", "\n".join("      " + x for x in t.split("\n"))).replace("%s", t)

    mon.log("duplicates", repr(put(bad)))
    load_every_way(rng, put(good), mon)
    try:
        way, c = load_every_way(rng, put(bad), mon)
        mon.fail(f"{put(bad)!r} with a duplicate key loads as {raw(c)!r}", "duplicate")
    except yaml.YAMLError:
        mon.ev("duplicates_rejected")


def sources(rng, mon):
    """to_yaml of schemas and instances, and bad arguments."""
    g = G(rng)
    sc = T.gen_scs(g, 1, depth=1)[-1]
    v = {n: T.gen_value(t, g, special=0.1) for n, t in sc.types.items()}
    inst = T.build(("sc", sc), v)
    cfg = OmegaConf.structured(inst)
    mon.log("structured", repr(sc), repr(v))
    mon.check(OmegaConf.to_yaml(inst) == OmegaConf.to_yaml(cfg), "the dump of an instance differs from that of its config", "structured")
    way, text = save_every_way(rng, inst, False)
    mon.check(text == OmegaConf.to_yaml(cfg), "saving an instance writes something else", "structured")
    want = named(raw(cfg))
    if want is not None:
        mon.check(same(raw(OmegaConf.create(text)), want), f"{text!r} loads as {raw(OmegaConf.create(text))!r}, expected {want!r}", "structured")
        # the schema takes the values back
        if not any(type(x) in (dict, list) for x in want.values()) and "${" not in text and "Union" not in repr(sc):
            back = OmegaConf.merge(OmegaConf.structured(sc.cls), OmegaConf.create(text))
            a, b = raw(back), raw(cfg)
            for k in a:
                x, y = a[k], b[k]
                # a missing value does not replace the default, and dicts are merged
                if y == "???" or T.base(sc.types[k])[0] in ("union", "any", "dict", "list", "sc"):
                    continue
                mon.check(same(x, y), f"{k}: {T.show(sc.types[k])} = {y!r} saved, loaded and merged is {x!r}", "structured")
        mon.ev("structured_agreed")


def case(rng, mon, i):
    x = rng.random()
    if x < 0.65:
        for _ in range(3):
            round_trip(rng, mon)
    elif x < 0.8:
        documents(rng, mon)
    elif x < 0.9:
        for _ in range(4):
            duplicates(rng, mon)
    else:
        for _ in range(3):
            sources(rng, mon)
