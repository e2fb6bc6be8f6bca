"""C24: dot-lists and command lines mean the corresponding nested assignment."""
import copy
import sys
import warnings

from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.base import Container
from omegaconf.errors import OmegaConfBaseException

from ocv import types_ as T
from ocv.gen import G, clone, same, walk
from ocv.props import c19, c20, c23
from ocv.snap import child, first_diff, keys_of, raw, snap, special
from ocv.world import World

CASE_CPU_LIMIT = 120.0


def setup(scratch):
    c19.setup(scratch)


BROKEN = ["[1, 2", "{a: 1", "'open", '"open', "{a: 1, a: 2}", "[}", "@x", "`", "a: b: c", "%x", "&", "*nope", "'a' b", "[1, 2] 3", "{1: a, 1: b}", "!!nope x", "\t: x"]
LINES = {"a: 1": {"a": 1}, "a: b": {"a": "b"}, "- 1": [1], "# only": None, "1 # one": 1, "": None, " ": None, "a: ": {"a": None}, "? a": {"a": None}, "x  ": "x", "  x": "x", "- a: 1": [{"a": 1}],
         "[a b, c]": ["a b", "c"], "{a: , b: 1}": {"a": None, "b": 1}, "!!str 1": "1", "!!int '1'": 1, "a=b": "a=b", "==": "==", "a=1=2": "a=1=2", "{x: a=b}": {"x": "a=b"},
         "'": None, "\"a\\nb\"": "a\nb", "'it''s'": "it's", "[[], {}]": [[], {}], "{'a b': 1}": {"a b": 1}, "[,]": None, "a,b": "a,b", "a, b": "a, b", "/": "/", "C:\\x": "C:\\x", "\\": "\\",
         "|\n  text\n": "text\n", "|\n a\n  b\n": "a\n b\n", "|+\n x\n\n": "x\n\n", "|-\n x\n": "x", ">\n a\n b\n": "a b\n", ">+\n a\n\n": "a\n\n", "'a '": "a ", "' '": " ", '" x"': " x", "a: |\n  x\n": {"a": "x\n"}, "- |+\n  x\n\n": ["x\n\n"],
         "[&x a, *x]": ["a", "a"], "&x 1": 1, "--- a": "a", "a\n b": "a b", "a\n": "a", "'a\n\n  b'": "a\nb", "\n1": 1, "a: 1\nb: 2\n": {"a": 1, "b": 2}, "|\n  a=b\n": "a=b\n"}  # fmt: skip
del LINES["'"], LINES["[,]"]


def plain_text(rng):
    """A plain scalar full of what means something elsewhere: YAML reads it as the text itself."""
    t = rng.choice("wQé_")
    for _ in range(rng.randint(1, 8)):
        t += rng.choice(["=", "=", "==", "[", "]", "]", "{", "}", ",", ".", "..", ":x", "::y", "#", "-", "/", "\\", "'", '"', "$", "%", "@", "!", "~", "*", "&", "|", ">", "?", "a b", "0", "[0]", ".a", "a=1", "???", "k"])
    t = t.replace("${", "$ {")
    return t + "w" if t.endswith(":") else t


def value(rng):
    """(text, value or an exception class)"""
    x = rng.random()
    if x < 0.3:
        t = rng.choice(list(c19.PLAIN))
        return t, c19.PLAIN[t]
    if x < 0.5:
        t = rng.choice(list(LINES))
        return t, clone(LINES[t])
    if x < 0.58:
        return rng.choice(BROKEN), ValueError
    if x < 0.7:
        t = plain_text(rng)
        return t, t
    t, v = c19.emit(rng, rng.choice([0, 1, 1, 2]), 0, True)
    if rng.random() < 0.1:
        t = rng.choice([" ", "  "]) + t + rng.choice(["", " ", " # note"])
    return t, v


def entry(rng, mon, cfg, args):
    """The ways to give arguments; returns (name, thunk giving the config)."""
    ways = []
    given = tuple(args) if rng.random() < 0.3 else list(args)

    def argv(f):
        def g():
            old = sys.argv
            sys.argv = ["prog"] + list(args)
            try:
                return f()
            finally:
                sys.argv = old

        return g

    if cfg is None:
        return rng.choice([
            ("from_dotlist", lambda: OmegaConf.from_dotlist(given), given),
            ("from_cli(list)", lambda: OmegaConf.from_cli(list(given)), given),
            ("from_cli()", argv(lambda: OmegaConf.from_cli()), given),
        ])
    return rng.choice([
        ("merge_with_dotlist", lambda: cfg.merge_with_dotlist(given), given),
        ("merge_with_dotlist", lambda: cfg.merge_with_dotlist(given), given),
        ("merge_with_cli", argv(lambda: cfg.merge_with_cli()), given),
    ])


def plain(rng, mon):
    g = G(rng)
    t, cfg, start = {}, None, None
    if rng.random() < 0.6:
        t = g.tree(depth=3, keys="s", root=rng.choice(["dict", "dict", "dict", "list"]))
        if "nan" in repr(t):
            return
        cfg = OmegaConf.create(t)
        start = clone(t)
    shadow = OmegaConf.create(clone(t))
    args, state, stop = [], t, None
    for _ in range(rng.choice([0, 1, 2, 3, 4, 6])):
        steps = c23.any_path(rng, shadow, extra=0.6)
        if rng.random() < 0.4:
            steps = [rng.choice(["a", "b", "c", "x-y", "k", " s", "é", "0", "1"]) for _ in range(rng.randint(1, 3))]
        path = c23.spell(rng, steps)
        if path is None or not steps or "=" in path or any(c23.unplain(s) for s in steps) and rng.random() < 1:
            continue
        if rng.random() < 0.12:
            arg, v = path, None
        else:
            text, v = value(rng)
            arg = path + "=" + text
        args.append(arg)
        if v is ValueError:
            stop = (len(args) - 1, "yaml")
            break
        try:
            state = c23.put(state, steps, v, True)
        except (TypeError, IndexError, ValueError):
            stop = (len(args) - 1, "path")
            break
        except c23.Fails:
            args.pop()
            continue
        shadow = OmegaConf.create(clone(state))
    if stop and rng.random() < 0.5:
        args.append("later=1")  # never reached
    name, f, given = entry(rng, mon, cfg, args)
    keep = list(given)
    mon.log(name, repr(start) if start is not None else "", repr(args))
    try:
        r, err = f(), None
    except RecursionError:
        raise
    except Exception as e:
        r, err = None, e
    mon.check(list(given) == keep, f"{name} changed the list of arguments to {given!r}", "arguments")
    if stop is None:
        mon.check(err is None, f"{name} {args!r} on {start!r:.300} raised {type(err).__name__}: {err!s:.200}", "refused")
        out = r if cfg is None else cfg
        mon.check(isinstance(out, Container), f"{name} gave {type(out).__name__}", "type")
        mon.check(same(raw(out), state), f"{name} {args!r} on {start!r:.300} gives {raw(out)!r:.400} instead of {state!r:.400}", "content")
        mon.ev("lists_agreed")
        mon.ev("arguments_agreed", len(args))
    else:
        mon.check(err is not None, f"{name} {args!r} on {start!r:.300} accepted argument {args[stop[0]]!r}: {(raw(cfg) if cfg is not None else raw(r))!r:.300}", "accepted")
        if cfg is not None and stop[1] == "yaml":
            mon.check(same(raw(cfg), state), f"after the failing argument {args[stop[0]]!r} of {args!r} on {start!r:.300} the config is {raw(cfg)!r:.300} instead of {state!r:.300}", "content")
        mon.ev("refused")


TEXTS = ["1", "0", "-7", "1.5", "1e3", "abc", "RED", "Color.RED", "red", "true", "no", "on", "null", "~", "", "???", "'1'", '"true"', "/a/b", "2020-01-01", "0x1F", ".inf", "[1,2]", "[]", "{}", "{a: 1}", "['a']", "[true, no]", "1:30", "${a}", "'${a}'", "GREEN", "1_0", "'null'"]


def typed(rng, mon):
    """Arguments for typed fields: as if assigned, in order."""
    g = G(rng)
    scs = T.gen_scs(g, rng.choice([1, 2, 3]), depth=2)
    sc = scs[-1]
    mon.log("structured " + "; ".join(map(repr, scs)))
    cfg = OmegaConf.structured(sc.cls)
    ref = copy.deepcopy(cfg)
    args, err_at = [], None
    for n in range(rng.randint(1, 5)):
        # a path of fields and keys
        t, steps, c = ("sc", sc), [], ref
        while True:
            b = T.base(t)
            if b[0] == "sc" and isinstance(c, DictConfig) and not special(c):
                k = rng.choice(list(b[1].types))
                if rng.random() < 0.05:
                    k = "nofield"
                steps.append(k)
                t = b[1].types.get(k)
                c = child(c, k) if k in keys_of(c) else None
            elif b[0] == "dict" and b[1][0] in ("str", "any", "enum") and rng.random() < 0.6 and isinstance(c, DictConfig) and not special(c):
                k = rng.choice(["a", "b", "new"]) if b[1][0] != "enum" else rng.choice(list(b[1][1])).name
                steps.append(k)
                t = b[2]
                kk = b[1][1][k] if b[1][0] == "enum" else k
                c = child(c, kk) if kk in keys_of(c) else None
            elif b[0] == "list" and isinstance(c, ListConfig) and not special(c) and len(c) and rng.random() < 0.6:
                i = rng.randrange(len(c))
                steps.append(str(i))
                t = b[1]
                c = child(c, i)
            else:
                break
            if t is None or c is None:
                break
        text = rng.choice(TEXTS) if rng.random() < 0.7 else rng.choice([k for k in c19.PLAIN])
        b = T.base(t) if t is not None else ("any",)
        if b[0] == "enum" and rng.random() < 0.8:
            m = rng.choice(list(b[1]))
            text = "'" + m.name + "'"
            YAML[text] = m.name
        elif b[0] in FIT and rng.random() < 0.8:
            text = rng.choice(FIT[b[0]])
        arg = ".".join(steps) + "=" + text
        args.append(arg)
        v = YAML.get(text, c19.PLAIN.get(text, NONE))
        assert v is not NONE, text
        v = clone(v)
        # what assignment does
        at = ref
        try:
            for s in steps[:-1]:
                at = at[int(s)] if isinstance(at, ListConfig) else at[s]
            last = int(steps[-1]) if isinstance(at, ListConfig) else steps[-1]
            old = None
            try:
                old = child(at, c23.key_in(at, steps[-1]))
            except (c23.Gone, c23.Fails):
                pass
            if type(v) in (dict, list) and isinstance(old, Container):
                old.merge_with(v)
            else:
                at[last] = v
        except RecursionError:
            raise
        except Exception as e:
            err_at = (len(args) - 1, type(e).__name__, isinstance(e, OmegaConfBaseException))
            break
    mon.log(repr(args))
    by = rng.choice(["merge_with_dotlist", "merge"]) if err_at is None else "merge_with_dotlist"
    try:
        cfg.merge_with_dotlist(args)
        err = None
    except RecursionError:
        raise
    except Exception as e:
        err = e
    if err_at is None:
        mon.check(err is None, f"{args!r} raised {type(err).__name__}: {err!s:.200}; assignment accepts them", "refused")
        d = first_diff(snap(ref), snap(cfg))
        mon.check(d is None, f"{args!r} differs from assignment: {d}", "content")
        mon.ev("typed_agreed")
    else:
        mon.check(err is not None, f"{args!r}: argument {args[err_at[0]]!r} is accepted, assignment raises {err_at[1]}", "accepted")
        mon.check(isinstance(err, OmegaConfBaseException) or not err_at[2], f"{args!r} raises {type(err).__name__}, assignment {err_at[1]}", "error")
        mon.ev("typed_refused")
    # declared types hold
    for n, t in sc.types.items():
        if n in cfg:
            try:
                T.conforms(child(cfg, n), t, n)
            except AssertionError as e:
                mon.fail(f"{args!r}: {e}", "types")


NONE = object()
FIT = {"int": ["1", "-7", "0x1F", "1:30", "'1'", "1_0"], "float": ["1.5", "1e3", ".inf", "1", "'1'"], "bool": ["true", "no", "on", "0", '"true"'], "str": ["abc", "'1'", "1", "true", "/a/b", "2020-01-01", "'null'"], "path": ["/a/b", "abc"],
       "list": ["[1,2]", "[]", "['a']", "[true, no]"], "dict": ["{}", "{a: 1}"], "union": ["1", "1.5", "true", "abc", "/a/b"], "sc": ["{}"]}  # fmt: skip
YAML = {"1": 1, "0": 0, "-7": -7, "1.5": 1.5, "1e3": 1000.0, "abc": "abc", "RED": "RED", "Color.RED": "Color.RED", "red": "red", "true": True, "no": False, "on": True, "null": None, "~": None, "": None, "???": "???", "'1'": "1", '"true"': "true",
        "/a/b": "/a/b", "2020-01-01": "2020-01-01", "0x1F": 31, ".inf": float("inf"), "[1,2]": [1, 2], "[]": [], "{}": {}, "{a: 1}": {"a": 1}, "['a']": ["a"], "[true, no]": [True, False], "1:30": 90, "${a}": "${a}", "'${a}'": "${a}", "GREEN": "GREEN", "1_0": 10, "'null'": "null"}  # fmt: skip


def bad(rng, mon):
    for v in ("a=1", b"a=1", None, 1, {"a": 1}, {"a=1"}, [1], [None], ["a=1", 2], ["a=1", ["b=2"]], iter(["a=1"])):
        cfg = OmegaConf.create({"z": 1})
        for f in (lambda: cfg.merge_with_dotlist(v), lambda: OmegaConf.from_dotlist(v)):
            try:
                r = f()
            except ValueError:
                continue
            mon.fail(f"arguments {v!r} are accepted: {r!r} {cfg!r}", "bad")
    mon.ev("bad_lists")


def case(rng, mon, i):
    T.reset()
    x = rng.random()
    if x < 0.01:
        return bad(rng, mon)
    if x < 0.6:
        return plain(rng, mon)
    typed(rng, mon)
