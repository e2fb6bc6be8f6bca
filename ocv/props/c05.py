"""C05: merging is the documented recursive merge, a left fold."""
import copy
import re

from omegaconf import DictConfig, ListConfig, ListMergeMode, OmegaConf

from ocv.core import Skip
from ocv.gen import G, MISSING, clone, same, walk
from ocv.snap import raw, snap, wellformed

MODES = [ListMergeMode.REPLACE, ListMergeMode.EXTEND, ListMergeMode.EXTEND_UNIQUE]


class Box:
    """A container node that holds None, '???' or an interpolation instead of items."""

    def __init__(self, kind, val):
        self.kind, self.val = kind, val

    def __repr__(self):
        return f"{'DictConfig' if self.kind == 'd' else 'ListConfig'}({self.val!r})"

    def __eq__(self, other):
        return self.val == (other.val if isinstance(other, Box) else other)


class Reject(Exception):
    pass


REF = re.compile(r"^\$\{([\w.]+)\}$")


def is_inter(v):
    v = v.val if isinstance(v, Box) else v
    return isinstance(v, str) and "${" in v


def is_missing(v):
    v = v.val if isinstance(v, Box) else v
    return isinstance(v, str) and v == MISSING


def is_none(v):
    return v is None or isinstance(v, Box) and v.val is None


def kind(v):
    if isinstance(v, Box):
        return v.kind
    return {dict: "d", list: "l"}.get(type(v), "v")


def deref(root, v, seen=()):
    """The container an interpolation leads to, or None."""
    m = REF.match(v.val if isinstance(v, Box) else v)
    if not m or m.group(1) in seen:
        return None
    cur = root
    seen = seen + (m.group(1),)
    for k in m.group(1).split("."):
        if is_inter(cur):
            cur = deref(root, cur, seen)
        if type(cur) is dict and k in cur:
            cur = cur[k]
        elif type(cur) is list and k.isdigit() and int(k) < len(cur):
            cur = cur[int(k)]
        else:
            return None
    if is_inter(cur):
        return deref(root, cur, seen)
    if type(cur) in (dict, list):
        return cur
    if isinstance(cur, Box) and cur.val is None:
        return cur
    return None


def dcopy(v):
    if type(v) is dict:
        return {k: dcopy(x) for k, x in v.items()}
    if type(v) is list:
        return [dcopy(x) for x in v]
    return v


def merge(dest, src, mode, root):
    """The reference merge of containers; returns the new destination."""
    kd, ks = kind(dest), kind(src)
    if kd != ks:
        raise Reject(f"{kd} {ks}")
    if isinstance(src, Box):
        return dest if is_missing(src) else src
    if kd == "l":
        items = [dcopy(x) for x in src]
        if isinstance(dest, Box):
            dest = []
        if mode is ListMergeMode.REPLACE:
            dest[:] = items
        elif mode is ListMergeMode.EXTEND:
            dest.extend(items)
        else:
            for x in items:
                if x not in dest:
                    dest.append(x)
        return dest
    if isinstance(dest, Box):
        dest = {}
    if root is None:
        root = dest
    for k, sv in src.items():
        if k not in dest:
            dest[k] = dcopy(sv)
            continue
        dv = dest[k]
        if is_missing(sv):
            if {kind(dv), kind(sv)} == {"d", "l"}:
                raise Reject("missing container of the other kind")
            continue
        if is_inter(dv):
            tgt = deref(root, dv)
            if any(x is dest for _, x in walk(tgt)):
                raise Skip("a reference to its own ancestor")
            if tgt is not None:
                dest[k] = dv = dcopy(tgt)
        if kind(dv) in "dl" and kind(sv) in "dl":
            if isinstance(dv, Box) and not isinstance(sv, Box):
                dest[k] = dv = {} if dv.kind == "d" else []
            dest[k] = merge(dv, sv, mode, root)
        else:
            dest[k] = dcopy(sv)
    return dest


def plain(v):
    if type(v) is dict:
        return {k: plain(x) for k, x in v.items()}
    if type(v) is list:
        return [plain(x) for x in v]
    return v.val if isinstance(v, Box) else v


def nodes(v):
    """What is handed to create(): plain containers, special container nodes as nodes."""
    if type(v) is dict:
        return {k: nodes(x) for k, x in v.items()}
    if type(v) is list:
        return [nodes(x) for x in v]
    if isinstance(v, Box):
        return (DictConfig if v.kind == "d" else ListConfig)(v.val)
    return v


def spice(g, tree, refs, box, inter, missing, none):
    def f(v, root=False, inlist=False):
        if not root and not inlist:
            x = g.r.random()
            if x < missing:
                return MISSING
            if x < missing + inter and refs:
                s = g.r.choice(refs)
                return Box(g.r.choice("dl"), s) if box and g.chance(0.2) else s
            if x < missing + inter + box:
                return Box(g.r.choice("dl"), g.r.choice([None, MISSING]))
            if x < missing + inter + box + none:
                return None
        if type(v) is dict:
            return {k: f(x) for k, x in v.items()}
        if type(v) is list:
            return [f(x, inlist=g.chance(0.7)) for x in v]
        return v

    return f(tree, True)


def related(g, base, keys, kinds):
    """A tree sharing structure with base."""
    r = g.r
    if type(base) is dict:
        out = {}
        ks = list(base)
        r.shuffle(ks)
        for k in ks:
            x = r.random()
            if x < 0.3:
                continue
            if x < 0.8:
                out[k] = related(g, base[k], keys, kinds)
            else:
                out[k] = g.tree(depth=2, width=3, keys=keys, kinds=kinds)
            if g.chance(0.15):
                out[g.key(keys)] = g.tree(depth=2, width=2, keys=keys, kinds=kinds)
        return out
    if type(base) is list:
        n = r.randint(0, len(base))
        return r.sample(base, n) + [g.tree(depth=1, width=2, keys=keys, kinds=kinds) for _ in range(r.randint(0, 2))]
    return g.prim(kinds)


def has_box(v):
    return any(isinstance(x, Box) for _, x in walk(v))


def case(rng, mon, i):
    g = G(rng)
    root = "dict" if rng.random() < 0.85 else "list"
    yaml_ok = rng.random() < 0.25
    keys = rng.choice(["s", "sssi", "sssifbBE"]) if not yaml_ok else rng.choice(["s", "ssi"])
    kinds = "nbifs" if yaml_ok else "nbifsBPE"
    mode = rng.choice(MODES)
    box = 0.0 if yaml_ok else rng.choice([0, 0, 0.1])
    inter, missing = rng.choice([0, 0.1, 0.2]), rng.choice([0, 0.15])
    n = rng.choice([2, 2, 3, 3, 4])
    trees = []
    for j in range(n):
        if j == 0 or rng.random() < 0.3:
            t = g.tree(depth=3, width=4, keys=keys, kinds=kinds, root=root)
        else:
            t = related(g, rng.choice(trees), keys, kinds)
        trees.append(t)
    refs = []
    for t in trees:
        for p, v in walk(t):
            if p and all(isinstance(x, str) and x.isidentifier() for x in p):
                refs.append("${" + ".".join(p) + "}")
    refs += ["${nope}", "x${a}"]
    if root == "list" or mode is ListMergeMode.EXTEND_UNIQUE:
        inter, box = 0, 0
    trees = [spice(g, t, refs, box, inter, missing, 0.05) for t in trees]
    mon.log("mode", mode.name)
    for t in trees:
        mon.log("input", t)
    try:
        model = dcopy(trees[0])
        for t in trees[1:]:
            model = merge(model, t, mode, None)
        want = plain(model)
    except Reject:
        want = None

    def inputs(yaml=True):
        out = []
        for t in trees:
            x = rng.random()
            if x < 0.4 or has_box(t):
                out.append(OmegaConf.create(nodes(t)))
            elif x < 0.7 or not yaml_ok or not yaml:
                out.append(tuple(t) if type(t) is list and rng.random() < 0.3 else clone(t))
            else:
                out.append(OmegaConf.create(OmegaConf.to_yaml(OmegaConf.create(t))))
        return out

    def m(*a):
        return OmegaConf.merge(*a, list_merge_mode=mode)

    def fold(*a):
        acc = a[0]
        for x in a[1:]:
            acc = m(acc, x)
        return acc

    def rfold(*a):
        acc = OmegaConf.create(a[0])
        for x in a[1:]:
            acc.merge_with(x, list_merge_mode=mode)
        return acc

    def inplace(*a):
        c = OmegaConf.create(a[0])
        c.merge_with(*a[1:], list_merge_mode=mode)
        return c

    def unsafe(*a):
        c = [OmegaConf.create(x) for x in copy.deepcopy(a)]
        return OmegaConf.unsafe_merge(*c, list_merge_mode=mode)

    def nested(*a):
        c = OmegaConf.create({"q": [{"p": OmegaConf.create(a[0])}]})
        c.q[0].p.merge_with(*a[1:], list_merge_mode=mode)
        return c.q[0].p

    def keyed(*a):
        return m(*[{"zz": OmegaConf.create(x)} for x in a]).zz

    ways = [("merge", m), ("merge one by one", fold), ("merge_with", inplace), ("merge_with one by one", rfold)]
    ways += [("unsafe_merge", unsafe)]
    if not inter:
        ways += [("nested merge_with", nested), ("merge under a key", keyed)]
    for name, f in ways:
        args = inputs()
        before = [snap(a) if isinstance(a, (DictConfig, ListConfig)) else repr(a) for a in args]
        try:
            res = f(*args)
        except RecursionError:
            raise
        except Exception as e:  # noqa: BLE001
            if want is not None:
                mon.fail(f"{name} raised {type(e).__name__}: {str(e)[:200]}", "raised", expected=want)
            mon.ev("rejections_agreed")
            continue
        if want is None:
            mon.fail(f"{name} accepted a dict and a list for one key", "accepted", got=raw(res))
        got = raw(res)
        mon.check(same(got, want), f"{name} gives the wrong result", "result", got=got, expected=want)
        mon.ev("merges_compared")
        wellformed(res, mon, name)
        after = [snap(a) if isinstance(a, (DictConfig, ListConfig)) else repr(a) for a in args]
        mon.check(before == after, f"{name} changed an input", "input")
    if want is None:
        return
    # idempotence and neutral elements
    c = OmegaConf.create(nodes(model))
    c0 = raw(c)
    if not any(isinstance(x, Box) and is_inter(x) for _, x in walk(model)):
        # (a ListConfig node referring to a dict would be rejected)
        r = OmegaConf.merge(c, c)
        mon.check(same(raw(r), c0), "merging a config with itself changed it", "idempotence", got=raw(r), expected=c0)
    r = m(c, {} if type(model) is dict else c)
    if type(model) is dict:
        mon.check(same(raw(r), c0), "merging an empty config changed it", "neutral", got=raw(r), expected=c0)
        r = m({}, c)
        mon.check(same(raw(r), c0), "merging into an empty config changed it", "neutral", got=raw(r), expected=c0)
    r = m(c)
    mon.check(same(raw(r), c0), "merging a single config changed it", "neutral", got=raw(r), expected=c0)
    mon.ev("laws_checked")
