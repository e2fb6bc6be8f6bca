"""C15: the interpolation grammar means what it says, always."""
import os
import threading
import warnings

from omegaconf import OmegaConf, grammar_parser
from omegaconf.errors import GrammarParseError, InterpolationResolutionError

from ocv import inter
from ocv import types_ as T
from ocv.gen import G, same

BASE = {
    "a": 1,
    "b": "foo",
    "n": None,
    "t": True,
    "f": 2.5,
    "k": "a",
    "kd": "d.x",
    "d": {"x": 2.5, "y": {"z": None, "a": "q"}, "foo": "bar"},
    "l": [1, [2, "three"], {"x": "in list"}],
    "a-b": "dash",
    "$x": "dollar",
    "1": "one",
    "é": "acc",
    "p+q": "plus",
    "c,d": "comma",
    "s/t": "slash",
    "q?": "query",
    "back": "a\\b",
    "tricky": "x: 'y', {z}",
    "\u0661": "digit",
    "null": "nul",
    "true": "tru",
}
PATHS = [
    ["a"], ["b"], ["n"], ["t"], ["f"], ["d", "x"], ["d", "y", "a"], ["d", "y", "z"], ["l", "0"], ["l", "1", "1"], ["l", "2", "x"],
    ["a-b"], ["$x"], ["1"], ["é"], ["p+q"], ["c,d"], ["s/t"], ["q?"], ["back"], ["tricky"], ["\u0661"], ["null"], ["true"],
    [("${k}", ("ref", 0, [(".", "k")]))], ["d", ("${b}", ("ref", 0, [(".", "b")]))], [("${kd}", ("ref", 0, [(".", "kd")]), ".")],
    ["d", "y", ("${k}", ("ref", 0, [(".", "k")]))], [("${.k}", ("ref", 1, [(".", "k")]))],
    [("${ocv_id:b}", ("call", ["ocv_id"], [(("val", "b"), "b")]))],
]  # fmt: skip


def refs(rng):
    return rng.choice([0, 0, 1]), rng.choice(PATHS)


def ident(x=None, *rest):
    return x


def join(*a):
    return "-".join(map(str, a))


CALLS = {"ocv_id": ident, "ocv_n": lambda *a: len(a), "ocv_join": join, "ns.ocv": lambda *a: "ns"}


def setup(scratch):
    warnings.simplefilter("ignore")
    OmegaConf.clear_resolvers()
    OmegaConf.register_new_resolver("ocv_rec", lambda *a: SINK.append(a))
    for n, f in CALLS.items():
        OmegaConf.register_new_resolver(n, f)


SINK = []


def fresh():
    return OmegaConf.create(dict(BASE))


def env():
    return inter.Env(BASE, {}, CALLS)


def outcome(f):
    try:
        return "value", f()
    except GrammarParseError:
        return "grammar", None
    except InterpolationResolutionError as e:
        return "resolution", type(e).__name__


def eval_text(text):
    """What a config says about the string: rejected, or what reading it gives."""

    def go():
        c = fresh()
        c.x = text
        return c.x

    return outcome(go)


def eval_element(text):
    """What oc.decode says about the element."""
    os.environ["OCV_EXPR"] = text
    try:

        def go():
            c = fresh()
            c.x = "${oc.decode:${oc.env:OCV_EXPR}}"
            return c.x

        return outcome(go)
    finally:
        del os.environ["OCV_EXPR"]


def eval_args(text):
    """What a resolver receives for the text."""

    def go():
        c = fresh()
        c.x = "${ocv_rec:" + text + "}"
        SINK.clear()
        c.x
        return list(SINK[-1])

    return outcome(go)


def in_new_thread(f, *a):
    out = []
    t = threading.Thread(target=lambda: out.append(f(*a)))
    t.start()
    t.join()
    return out[0]


def eq(a, b):
    return a[0] == b[0] and same(a[1], b[1])


def plainly(x):
    return OmegaConf.to_container(x, resolve=True) if OmegaConf.is_config(x) else x


MUT = list("${}[]().:,'\"\\ \t=ab01-+_/#&~!é\n") + ["${", "\\${", "${a}", "null", "..", "::", "{}", "[]", "\\\\"]


def mutate(rng, s):
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.randint(0, len(s))
        k = rng.random()
        if k < 0.35:
            s = s[:i] + rng.choice(MUT) + s[i:]
        elif k < 0.65 and s:
            s = s[:i] + s[i + 1 :]
        elif k < 0.75:
            s = s[:i]
        elif k < 0.85:
            j = rng.randint(0, len(s))
            s = s[:i] + s[min(i, j) : max(i, j)] + s[i:]
        else:
            s = s[:i] + rng.choice(MUT) + s[i + 1 :]
    return s


def acceptance(mon, s, rng):
    """Whether a string is accepted is the same wherever it enters, and reading agrees."""

    def ask(f):
        try:
            f()
            return True
        except GrammarParseError:
            return False

    sc = T.make_sc(G(rng), [("x", ("str",), "d"), ("u", ("union", (("str",), ("int",))), 1), ("i", ("int",), 1), ("o", ("opt", ("str",)), None)])

    def attr(c, k):
        setattr(c, k, s)
        return c

    st = OmegaConf.structured(sc.cls)
    doors = {
        "create": lambda: OmegaConf.create({"x": s}),
        "create list": lambda: OmegaConf.create([s]),
        "attribute": lambda: attr(fresh(), "x"),
        "existing": lambda: attr(fresh(), "d"),
        "append": lambda: OmegaConf.create([]).append(s),
        "update": lambda: OmegaConf.update(fresh(), "d.x", s),
        "merge": lambda: OmegaConf.merge(fresh(), {"x": s}),
        "typed": lambda: attr(st, "x"),
        "union": lambda: attr(st, "u"),
        "optional": lambda: attr(st, "o"),
    }
    if "${" in s:
        doors["int"] = lambda: attr(st, "i")
    got = {n: ask(f) for n, f in doors.items()}
    parsed = ask(lambda: grammar_parser.parse(s)) if "${" in s else True
    mon.check(set(got.values()) == {parsed}, f"{s!r}: the parser accepts it: {parsed}, the entry points: {got}", "acceptance")
    if parsed:
        c = fresh()
        c.x = s
        c.l2 = [s]
        for n, f in (("attribute", lambda: c.x), ("item", lambda: c["x"]), ("list item", lambda: c.l2[0]), ("get", lambda: c.get("x"))):
            try:
                v = f()
                if "${" not in s and s != "???":
                    mon.check(v == s and type(v) is str, f"the plain string {s!r} reads as {v!r}", "plain")
            except GrammarParseError as e:
                mon.fail(f"{s!r} is accepted but reading it ({n}) fails: {e}", "acceptance")
            except InterpolationResolutionError:
                pass
            except Exception as e:
                if s == "???":
                    continue
                mon.fail(f"{s!r} is accepted but reading it ({n}) raises {type(e).__name__}: {e}", "acceptance")
    mon.ev("acceptance_agreed" if parsed else "rejection_agreed")


def valid_expr(mon, rng, gen):
    k = rng.random()
    if k < 0.5:
        text, tree = gen.text()
        want = plainly2(inter.evaluate(tree, env(), ("x",)))
        f, w = eval_text, ("value", want)
    elif k < 0.8:
        text, tree = gen.element(3)
        want = inter.evaluate(tree, env(), ("x",))
        f, w = eval_element, ("value", want)
        if rng.random() < 0.3:
            # surrounding it by list brackets keeps its meaning
            text, w = "[" + gen.sp() + text + gen.sp() + "]", ("value", [want])
    else:
        n = rng.randint(0, 3)
        els = [gen.element(2) for _ in range(n)]
        want = [inter.evaluate(t, env(), ("x",)) for _, t in els]
        text = ""
        for j, (t, _) in enumerate(els):
            text += (gen.sp() + "," + gen.sp() if j else "") + t
        f, w = eval_args, ("value", want)
    return f, text, w


def plainly2(x):
    return x


def check_valid(mon, f, text, w):
    got = f(text)
    got = (got[0], plainly(got[1]))
    mon.log(f.__name__, repr(text), "->", repr(got))
    mon.check(eq(got, w), f"{f.__name__}: {text!r} gives {got!r}, it denotes {w!r}", "meaning")
    mon.ev("meanings_agreed")


def case(rng, mon, i):
    gen = inter.Gen(rng, refs, resolvers=list(CALLS), depth=rng.choice([1, 2, 3]))
    hist = []
    for _ in range(rng.randint(3, 8)):
        x = rng.random()
        if x < 0.5:
            f, text, w = valid_expr(mon, rng, gen)
            check_valid(mon, f, text, w)
            hist.append((f, text, w))
            if rng.random() < 0.3:
                # the same text where it stands for something else
                for f2 in rng.sample([eval_text, eval_element, eval_args], rng.randint(1, 3)):
                    got, ref = f2(text), in_new_thread(f2, text)
                    mon.check(
                        eq((got[0], plainly(got[1])), (ref[0], plainly(ref[1]))),
                        f"{f2.__name__}: {text!r} gives {got!r} after {f.__name__} and {ref!r} with a fresh parser", "isolation",
                    )  # fmt: skip
                    mon.ev("other_roles_agreed")
                check_valid(mon, f, text, w)
            if f is eval_text and rng.random() < 0.5:
                acceptance(mon, text, rng)
        elif x < 0.85:
            f, text, _ = valid_expr(mon, rng, gen)
            text = mutate(rng, text)
            got = f(text)
            mon.log("mutated", f.__name__, repr(text), "->", got[0])
            ref = in_new_thread(f, text)
            mon.check(
                eq((got[0], plainly(got[1])), (ref[0], plainly(ref[1]))),
                f"{f.__name__}: {text!r} gives {got!r} here and {ref!r} with a fresh parser", "isolation",
            )  # fmt: skip
            mon.ev("fresh_parser_agreed")
            acceptance(mon, text, rng)
        elif hist:
            # whatever came in between
            check_valid(mon, *rng.choice(hist))
        if rng.random() < 0.2:
            acceptance(mon, G(rng).str_(), rng)
