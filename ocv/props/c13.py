"""C13: a missing value is never observable as a value."""
import copy

from omegaconf import MISSING, DictConfig, ListConfig, OmegaConf
from omegaconf.base import Container
from omegaconf.errors import ConfigKeyError, InterpolationToMissingValueError, MissingMandatoryValue

from ocv import types_ as T
from ocv.gen import G, clone, same
from ocv.snap import child, containers, keys_of, raw, special
from ocv.world import World

D = object()


def raises(f, exc):
    try:
        r = f()
    except exc:
        return None
    return f"gave {r!r:.200}"


def is_inter(node):
    return node._is_interpolation()


def ident(k):
    return isinstance(k, str) and k.isidentifier() and not k.startswith("__")


def selectable(root, path):
    c = root
    for k in path:
        if not (ident(k) if isinstance(c, DictConfig) else k >= 0):
            return False
        c = child(c, k)
    return True


def expected_missing(tree, cfg):
    """Paths of '???' in a plain rendering of the config, not below interpolations."""
    out = []

    def go(t, path):
        if type(t) is dict:
            for k, v in t.items():
                go(v, path + (k,))
        elif type(t) is list:
            for k, v in enumerate(t):
                go(v, path + (k,))
        elif type(t) is str and t == MISSING and path:
            out.append(path)

    go(tree, ())
    return out


def fk(root, path):
    """Full key in the documented format: a.b[0].c"""
    s = ""
    c = root
    for n, k in enumerate(path):
        name = k if isinstance(k, str) else (k.name if hasattr(k, "name") and hasattr(k, "value") else str(k))
        if isinstance(c, ListConfig):
            s += f"[{k}]"
        else:
            s += f".{name}" if n else name
        c = child(c, k)
    return s


def check_all(w, mon, rng):
    cfg = w.cfg
    if special(cfg):
        return
    tree = raw(cfg)
    miss = expected_missing(tree, cfg)
    mset = set(map(repr, miss))
    # --- the listing names exactly the missing nodes
    if all(isinstance(k, (str, int)) and not isinstance(k, bool) for p, _ in containers(cfg) for k in p):
        want = {fk(cfg, p) for p in miss}
        got = OmegaConf.missing_keys(cfg)
        odd = any(k == "" or not isinstance(k, (str, int)) or isinstance(k, bool) for p in miss for k in p)
        if not odd:
            # 1 and True are one key; which of them a full key shows is left open
            got, want = ({x.replace("True", "1").replace("False", "0") for x in y} for y in (got, want))
            mon.check(got == want, f"missing_keys gives {got}, the missing nodes are {want}", "missing_keys", config=tree)
            mon.ev("listings_agreed")
    # --- conversion
    if miss:
        r = raises(lambda: OmegaConf.to_container(cfg, throw_on_missing=True), MissingMandatoryValue)
        mon.check(r is None, f"to_container(throw_on_missing=True) {r}", "to_container", config=tree)
    else:
        OmegaConf.to_container(cfg, throw_on_missing=True)
    plain = OmegaConf.to_container(cfg)
    mon.check(same(plain, tree), f"to_container gives {plain!r:.300}, expected {tree!r:.300}", "to_container")
    inter = [p for p, v in G_walk(tree) if type(v) is str and "${" in v]
    declared = [p for p in miss if not extra(cfg, p)]
    if miss and not declared:
        pass  # keys forced into a structured config are not part of the object when missing
    elif miss and not inter:
        r = raises(lambda: OmegaConf.to_object(cfg), MissingMandatoryValue)
        mon.check(r is None, f"to_object {r}", "to_object", config=tree)
        mon.check(same(OmegaConf.to_container(cfg, resolve=True), tree), "to_container(resolve=True)", "to_container")
    mon.ev("conversions_agreed")
    # --- every node
    for p, c in containers(cfg):
        if special(c):
            continue
        for k in keys_of(c):
            node = child(c, k)
            path = p + (k,)
            is_m = repr(path) in mset
            mon.check(
                OmegaConf.is_missing(c, k) == (is_m and not is_inter(node)),
                f"is_missing at {path} is {OmegaConf.is_missing(c, k)}", "is_missing", node=node,
            )  # fmt: skip
            if is_m:
                missing_node(cfg, c, k, path, mon, rng)
            elif not is_inter(node) and isinstance(c, DictConfig):
                mon.check(k in c, f"the present {path} counts as not contained", "contains")
        if isinstance(c, DictConfig):
            has = any(repr(p + (k,)) in mset for k in keys_of(c))
            anyi = any(is_inter(child(c, k)) for k in keys_of(c))
            if has and not anyi:
                for name, f in (("items", lambda: list(c.items())), ("values", lambda: list(c.values()))):
                    r = raises(f, MissingMandatoryValue)
                    mon.check(r is None, f"{name} of {p} with a missing value {r}", "iterate")
            mon.check(list(c.keys()) == list(c) and len(c) == len(keys_of(c)), f"keys of {p}", "keys")
            if c._metadata.key_type is str or str(c._metadata.key_type) == "typing.Any":
                mon.check(not OmegaConf.is_missing(c, "ocv_nope"), "is_missing of an absent key", "is_missing")
        else:
            has = any(repr(p + (k,)) in mset for k in keys_of(c))
            anyi = any(is_inter(child(c, k)) for k in keys_of(c))
            if not anyi:
                mon.check("???" not in c, f"the mark of a missing value is an item of the list at {p}", "contains")
            if has and not anyi:
                for name, f in (
                    ("sorting", lambda: c.sort(key=repr)),
                    ("iteration", lambda: list(c)),
                    ("slicing", lambda: c[:]),
                    ("index", lambda: c.index("ocv")),
                ):
                    r = raises(f, MissingMandatoryValue)
                    mon.check(r is None, f"{name} of the list at {p} with a missing element {r}", "iterate")


def extra(cfg, path):
    c = cfg
    for k in path[:-1]:
        c = child(c, k)
    sc = T.BY_CLS.get(c._metadata.object_type)
    return sc is not None and path[-1] not in sc.types


def G_walk(t):
    from ocv.gen import walk

    return walk(t)


def missing_node(cfg, c, k, path, mon, rng):
    mon.ev("missing_nodes_checked")
    M = MissingMandatoryValue
    r = raises(lambda: c[k], M)
    mon.check(r is None, f"reading [{k!r}] of the missing {path} {r}", "read")
    if ident(k) and isinstance(c, DictConfig) and not hasattr(DictConfig, k):
        r = raises(lambda: getattr(c, k), M)
        mon.check(r is None, f"reading .{k} of the missing {path} {r}", "read")
        mon.check(getattr_default(c, k) is M, f"getattr with a default of the missing {path}", "read")
    got = c.get(k, D) if isinstance(c, DictConfig) else None
    if isinstance(c, DictConfig):
        mon.check(got is D, f"get with a default of the missing {path} gave {got!r}", "get")
        mon.check(c.get(k) is None, f"get of the missing {path} gave {c.get(k)!r}", "get")
        mon.check(k not in c, f"the missing {path} counts as contained", "contains")
        mon.check(k in list(c.keys()), f"the missing {path} is not among the keys", "keys")
    else:
        mon.check(c.get(k, D) is D, f"get with a default of the missing {path}", "get")
    if selectable(cfg, path):
        s = ".".join(map(str, path))
        mon.check(OmegaConf.select(cfg, s) is None, f"select of the missing {s} gave {OmegaConf.select(cfg, s)!r}", "select")
        mon.check(OmegaConf.select(cfg, s, default=D) is D, f"select with a default of the missing {s}", "select")
        r = raises(lambda: OmegaConf.select(cfg, s, throw_on_missing=True), M)
        mon.check(r is None, f"select(throw_on_missing) of the missing {s} {r}", "select")
        if isinstance(child(c, k), Container):
            mon.check(OmegaConf.select(cfg, s + ".0") is None, f"select below the missing {s}", "select")
    if rng.random() < 0.35:
        cp = copy.deepcopy(cfg)
        x = cp
        for kk in path[:-1]:
            x = child(x, kk)
        how = rng.choice(["pop", "popd", "setdefault", "assign", "interp", "merge", "pop", "interp", "copy"])
        if how == "pop":
            before = raw(cp)
            closed = isinstance(x, DictConfig) and x._metadata.object_type not in (dict, None)
            if isinstance(x, ListConfig):
                mon.check(x.pop(k) is None, f"pop of the missing {path} gives a value", "pop")
                mon.check(len(x) == len(c) - 1, f"pop of the missing {path} did not remove it", "pop")
                mon.ev("pops_checked")
            elif not closed:
                r = raises(lambda: x.pop(k), M)
                mon.check(r is None, f"pop of the missing {path} {r}", "pop")
                mon.check(same(raw(cp), before), f"failed pop of the missing {path} changed the config", "pop")
                mon.ev("pops_checked")
        elif how == "popd" and isinstance(x, DictConfig):
            if x._metadata.object_type in (dict, None):
                got = x.pop(k, 5)
                mon.check(got == 5 and type(got) is int, f"pop with a default of the missing {path} gave {got!r}", "pop")
                mon.check(k not in list(x.keys()) and len(x) == len(c) - 1, f"pop with a default of the missing {path} left it there", "pop")
                mon.ev("pops_checked")
        elif how == "copy":
            for cp2 in (cp, copy.copy(cfg), OmegaConf.create(cfg)):
                y = cp2
                for kk in path[:-1]:
                    y = child(y, kk)
                r = raises(lambda: y[k], M)
                mon.check(r is None, f"reading the missing {path} of a copy {r}", "copy")
        elif how == "interp":
            host = OmegaConf.create({"in": cfg})
            if selectable(cfg, path) and isinstance(host["in"], Container):
                s = "in." + ".".join(map(str, path))
                for text in ("${" + s + "}", "x${" + s + "}y", "${oc.decode:${" + s + "}}", "${" + s + ".deeper}"):
                    host.ref = text
                    try:
                        got = host.ref
                    except InterpolationToMissingValueError:
                        pass
                    except Exception as e:  # noqa: BLE001
                        if not text.endswith(".deeper}"):
                            raise
                        mon.check("Interpolation" in type(e).__name__, f"{text} raised {type(e).__name__}", "interp")
                    else:
                        mon.fail(f"the interpolation {text} to a missing value gave {got!r}", "interp")
                    mon.check("ref" in host, "a failing interpolation counts as contained", "interp")
                    mon.ev("interpolations_checked")
                    got = OmegaConf.select(host, "ref", default=D, throw_on_resolution_failure=False)
                    mon.check(got is D, f"select of {text} with a default gave {got!r}", "interp")
                    if not text.endswith(".deeper}"):
                        r = raises(lambda: OmegaConf.select(host, "ref"), InterpolationToMissingValueError)
                        mon.check(r is None, f"select of {text} {r}", "interp")
        elif how == "merge":
            # a missing right side leaves the value alone
            t = raw(cp)
            if not any(isinstance(kk, int) for kk in path):
                m2 = OmegaConf.merge(cp, nest(path, MISSING))
                mon.check(same(raw(m2), t), f"merging '???' over {path}", "merge")
        else:
            v = good_value(cfg, path, child(x, k), rng)
            if v is None:
                return
            v = v[0]
            if how == "setdefault" and isinstance(x, DictConfig):
                got = x.setdefault(k, v)
                mon.check(got == v or isinstance(got, Container), f"setdefault of the missing {path} gave {got!r}", "assign")
            else:
                x[k] = v
            mon.check(not OmegaConf.is_missing(x, k), f"{path} is missing after assigning {v!r}", "assign")
            if isinstance(x, DictConfig):
                mon.check(k in x, f"{path} is not contained after assigning {v!r}", "assign")
            x[k]  # readable
            mon.check(
                fk(cp, path) not in OmegaConf.missing_keys(cp) if all_plain(path) else True,
                f"{path} listed as missing after assigning {v!r}", "assign",
            )  # fmt: skip
            mon.ev("assignments_checked")
            # and back
            x[k] = MISSING
            mon.check(OmegaConf.is_missing(x, k), f"{path} is not missing after assigning '???'", "assign")
            r = raises(lambda: x[k], M)
            mon.check(r is None, f"reading {path} after assigning '???' {r}", "assign")


def all_plain(path):
    return all(isinstance(k, (str, int)) and not isinstance(k, bool) for k in path)


def nest(path, v):
    for k in reversed(path):
        v = {k: v}
    return v


def getattr_default(c, k):
    try:
        return getattr(c, k, D)
    except MissingMandatoryValue:
        return MissingMandatoryValue


W = None


def good_value(cfg, path, node, rng):
    t = W.type_at(path) if W.cfg is cfg else None
    g = G(rng)
    if t is not None:
        v = T.gen_value(t, g)
        return (T.build(t, v),)
    md = node._metadata
    if md.ref_type is not None and str(md.ref_type) == "typing.Any":
        return (g.tree(depth=1, width=2, idents=True, kinds="bis"),)
    return None


def present_over_missing(w, mon, rng):
    """Merging a tree of '???' over a config changes nothing, whatever its shape."""
    cfg = w.cfg
    if special(cfg) or not isinstance(cfg, DictConfig):
        return
    before = raw(cfg)

    def blank(c):
        if isinstance(c, DictConfig) and not special(c) and rng.random() < 0.7:
            return {k: blank(child(c, k)) for k in keys_of(c)}
        return MISSING

    src = {k: blank(child(cfg, k)) for k in keys_of(cfg)}
    mon.log("merge a tree of missing values", src)
    form = rng.choice(["plain", "config", "in place"])
    if form == "in place":
        res = copy.deepcopy(cfg)
        res.merge_with(src)
    else:
        res = OmegaConf.merge(cfg, src if form == "plain" else OmegaConf.create(src))
    after = raw(res)
    # an empty right side dict creates an empty dict where the left one was missing or None
    mon.check(same(before, after), f"merging missing values ({form}) over {before!r:.300} gave {after!r:.300}", "merge")
    mon.ev("missing_merges")


def case(rng, mon, i):
    global W
    w = W = World(rng, mon, inter=0.05, missing=rng.choice([0.1, 0.4, 0.6]), kinds="uustdl")
    check_all(w, mon, rng)
    present_over_missing(w, mon, rng)
    for _ in range(rng.randint(0, 4)):
        d, f = w.single()
        mon.log(d)
        try:
            f()
        except RecursionError:
            raise
        except Exception as e:  # noqa: BLE001
            mon.log(f"  raised {type(e).__name__}")
    check_all(w, mon, rng)
    W = None


__all__ = ["case", "clone", "ConfigKeyError"]
