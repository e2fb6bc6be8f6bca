"""C18: resolving in place gives the resolved content and leaves the rest alone."""
import copy
import warnings

from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.base import Container
from omegaconf.errors import (
    InterpolationResolutionError,
    InterpolationToMissingValueError,
    UnsupportedInterpolationType,
)

from ocv import inter
from ocv import types_ as T
from ocv.gen import same
from ocv.inter import Err, Nd
from ocv.props import c14
from ocv.snap import child, containers, first_diff, keys_of, raw, snap, wellformed
from ocv.world import World

CASE_CPU_LIMIT = 120.0
CALLS = {
    **c14.CALLS,
    "ocv_lit": lambda *a: "${a} \\${b}",
    "ocv_list": lambda *a: [1, "x${a}", {"k": "\\${a}"}, None],
    "ocv_dict": lambda *a: {"a": {"b": "${sel}"}, "n": [len(a)]},
}


def setup(scratch):
    warnings.simplefilter("ignore")
    OmegaConf.clear_resolvers()
    for n, f in CALLS.items():
        OmegaConf.register_new_resolver(n, f)


class TextOfContainer(Exception):
    """The text of a container inside a string shows it before or after its own resolution: not specified."""


def no_nodes(f):
    def g(*a):
        if any(isinstance(x, (Nd, list, dict)) for x in a):
            raise TextOfContainer
        return f(*a)

    return g


SPEC = {n: no_nodes(f) if n == "ocv_join" else f for n, f in CALLS.items()}


class W(c14.W):
    def ref_text(self, tree, here):
        r = self.r
        x = r.random()
        if x < 0.1:
            lit = r.choice(["${a}", "x${a} y", "\\${a}", "a\\\\${b}", "${", "$${a}\\", "${a${b}"])
            text = inter.esc_top(lit, False)
            self.trees[text] = ("text", [lit])
            return text
        if x < 0.2:
            name = r.choice(["ocv_lit", "ocv_list", "ocv_dict"])
            text, tr = "${" + name + ":}", ("call", [name], [])
            pre = r.choice(["", "", "pre "]) if name == "ocv_lit" else ""
            self.trees[pre + text] = ("text", ([pre] if pre else []) + [tr])
            return pre + text
        return super().ref_text(tree, here)

    def env(self):
        def text(p):
            raise TextOfContainer

        def value_text(x):
            if type(x) in (list, dict):
                raise TextOfContainer
            return str(x)

        e = inter.Env(raw(self.cfg), self.trees, SPEC, node_str=text)
        e.value_str = value_text
        return e


def expected(w, env, path, guard=()):
    """Plain content after resolving: references to missing values become missing."""
    if path in guard:
        raise Err("cycle", path)
    t = env.raw(path)
    out = []
    for k in t if type(t) is dict else range(len(t)):
        q = path + (k,)
        try:
            v = env.value(q)
        except Err as e:
            if e.kind != "missing":
                raise
            v = "???"
        if isinstance(v, Nd):
            v = expected(w, env, v.path, guard + (path,))
        out.append(v)
    return dict(zip(t, out)) if type(t) is dict else out


def literal(v):
    """Is v a text whose unescaped form needs escaping, and nothing else?"""
    return isinstance(v, str) and "${" in v


def same_text(got, want):
    """got: raw content after resolving; want: resolved content.  Texts holding '${' are escaped in got."""
    if type(want) is dict:
        return type(got) is dict and list(got) == list(want) and all(same_text(got[k], want[k]) for k in want)
    if type(want) is list:
        return type(got) is list and len(got) == len(want) and all(same_text(a, b) for a, b in zip(got, want))
    if literal(want):
        return isinstance(got, str) and got == inter.esc_top(want, False)
    return same(got, want)


def outside(root, path):
    """Everything in the tree except what is below path."""
    out = []

    def go(n, p):
        if p == path:
            out.append((p, id(n), n._key()))
            return
        if isinstance(n, Container) and not keys_special(n):
            md = n._metadata
            out.append((p, id(n), n._key(), str(md.ref_type), str(md.object_type), md.optional, repr(md.flags), tuple(map(repr, keys_of(n)))))
            for k in keys_of(n):
                go(child(n, k), p + (k,))
        else:
            out.append((p, snap(n, ids=True)))

    go(root, ())
    return tuple(out)


def keys_special(n):
    from ocv.snap import special

    return special(n)


def meta(root):
    """Declared types, optionality and flags of every node of a tree by path."""
    out = {}

    def go(n, p):
        md = n._metadata
        out[p] = (str(md.ref_type), md.optional, repr({k: v for k, v in (md.flags or {}).items() if v is not None}), type(n).__name__)
        if isinstance(n, Container) and not keys_special(n):
            for k in keys_of(n):
                go(child(n, k), p + (k,))

    go(root, ())
    return out


def verify(mon, root, path, node, want, before_out, what):
    got = raw(node)
    mon.check(same_text(got, want), f"{what}: the content is {got!r}, expected {want!r}", "content")
    got = OmegaConf.to_container(node, resolve=True)
    mon.check(same(got, want), f"{what}: converting the resolved config gives {got!r}, expected {want!r}", "content")
    for p, c in containers(node):
        for k in keys_of(c) if not keys_special(c) else ():
            v = child(c, k)._value()
            mon.check(not isinstance(v, str) or "${" not in v or "\\${" in v, f"{what}: an interpolation remains at {p + (k,)}: {v!r}", "remains")
    wellformed(root, mon, what)
    d = first_diff(before_out, outside(root, path))
    mon.check(d is None, f"{what}: something outside changed: {d}", "outside")
    s = snap(node, ids=True)
    OmegaConf.resolve(node)
    d = first_diff(s, snap(node, ids=True))
    mon.check(d is None, f"{what}: resolving again changes {d}", "again")
    mon.ev("resolved_agreed")


def one(w, mon, rng):
    conts = w.containers()
    path, _ = rng.choice([conts[0], rng.choice(conts)])
    env = w.env()
    try:
        want, err = expected(w, env, path), None
    except Err as e:
        want, err = None, e
    except TextOfContainer:
        mon.stat("text_of_container")
        return
    root = copy.deepcopy(w.cfg)
    node = root
    for k in path:
        node = child(node, k)
    before = outside(root, path)
    metas = meta(node)
    mon.log("resolve", repr(path), "expected", repr(want) if err is None else err.kind)
    try:
        OmegaConf.resolve(node)
        exc = None
    except (InterpolationResolutionError, UnsupportedInterpolationType, RecursionError) as e:
        exc = e
    if err is not None:
        if err.kind == "type" and exc is None:
            # a path into the result of a resolver exists once that one is resolved
            return
        mon.check(exc is not None, f"resolving {path} of {raw(w.cfg)!r} succeeds, expected {err.kind}: {raw(node)!r}", "no error")
        d = first_diff(before, outside(root, path))
        mon.check(d is None, f"a failed resolution of {path} changed something outside: {d}", "outside")
        mon.ev("failures_agreed")
        return
    mon.check(exc is None, f"resolving {path} of {raw(w.cfg)!r} raises {exc!r:.300}, expected {want!r}", "raises")
    verify(mon, root, path, node, want, before, f"resolving {path} of {raw(w.cfg)!r}")
    now = meta(node)
    for p, m in metas.items():
        if type(want_at(want, p)) in (dict, list) and m[3] == "AnyNode":
            continue
        mon.check(now.get(p) == m, f"declared type, optionality or flags at {p} were {m}, are {now.get(p)}", "meta")
    # nothing that was referenced matters any more
    for k in list(root) if isinstance(root, DictConfig) else ():
        if path and k != path[0] and rng.random() < 0.7:
            root[k] = "changed"
    if path:
        got = OmegaConf.to_container(node, resolve=True)
        mon.check(same(got, want), f"after changing the rest, the resolved part at {path} is {got!r}, it was {want!r}", "detached")
        mon.ev("detached_agreed")


def want_at(want, p):
    for k in p:
        want = want[k]
    return want


def typed(rng, mon):
    """Configs with declared types: the result still conforms and equals the conversion."""
    w = World(rng, mon, inter=0.0, missing=0.05, kinds="sssdl")
    cfg = w.cfg
    if keys_special(cfg):
        return
    root = OmegaConf.create({"v": None, "cfg": cfg, "ref": {}, "lit": 1})
    cfg = root.cfg
    # interpolations in typed fields to values of that type, or that convert to it
    n = 0
    for p, c in containers(cfg):
        if keys_special(c):
            continue
        for k in keys_of(c):
            if rng.random() < 0.4:
                t = w.type_at(p + (k,))
                nd = child(c, k)
                if t is None:
                    v = rng.choice([1, "x", None, {"a": 1}, [1, "${lit}"]])
                else:
                    v = T.build(t, T.gen_value(t, w.g, special=0.0))
                key = f"r{n}"
                n += 1
                try:
                    root.ref[key] = v
                    if nd._is_missing() and rng.random() < 0.5:
                        continue
                    c[k] = "${ref." + key + "}"
                except Exception as e:
                    mon.log("refused", type(e).__name__)
    mon.log("typed", repr(raw(root)))
    try:
        want = OmegaConf.to_container(root, resolve=True)["cfg"]
    except InterpolationToMissingValueError:
        return
    except InterpolationResolutionError:
        return
    before = outside(root, ("cfg",))
    metas = meta(cfg)
    OmegaConf.resolve(cfg)
    verify(mon, root, ("cfg",), cfg, want, before, f"resolving {raw(root)!r:.500}")
    bad = T.conforms(child(root, "cfg"), w.t)
    mon.check(bad is None, f"after resolving, {bad}", "type")
    now = meta(cfg)
    for p, m in metas.items():
        if m[0] == "typing.Any":
            continue
        mon.check(p in now and now[p][:2] == m[:2], f"declared type or optionality at {p} were {m}, are {now.get(p)}", "meta")
    mon.ev("typed_agreed")
    mon.stat("typed_refs", n)


def case(rng, mon, i):
    if rng.random() < 0.4:
        for _ in range(3):
            typed(rng, mon)
        return
    w = W(rng, mon, dangling=0.02, missing=0.05)
    for _ in range(2):
        one(w, mon, rng)
    for _ in range(rng.randint(0, 4)):
        w.step()
    one(w, mon, rng)
    one(w, mon, rng)
