"""C12: struct mode and structured configs admit no undeclared keys, except inside an opening block or by force."""
import pathlib

from omegaconf import DictConfig, ListConfig, OmegaConf, flag_override, open_dict
from omegaconf.errors import ConfigAttributeError, ConfigKeyError, ConfigTypeError, OmegaConfBaseException

from ocv import types_ as T
from ocv.snap import child, containers, first_diff, keys_of, raw, snap, special
from ocv.world import World


def own(n):
    return (n._metadata.flags or {}).get("struct")


def is_sc(n):
    return isinstance(n, DictConfig) and n._metadata.object_type in T.BY_CLS


def walk(root):
    """(path, container, effective struct)"""

    def go(n, path, eff):
        o = own(n)
        eff = eff if o is None else o
        yield path, n, eff
        for k in keys_of(n):
            c = child(n, k)
            if isinstance(c, (DictConfig, ListConfig)):
                yield from go(c, path + (k,), eff)

    yield from go(root, (), None)


def closed(n, eff):
    if not isinstance(n, DictConfig):
        return False
    if is_sc(n):
        return own(n) is not False
    return eff is True


def closed_dicts(root):
    return [(p, n) for p, n, e in walk(root) if closed(n, e) and not special(n)]


def okpath(p):
    return all((type(k) is int) or (isinstance(k, str) and k.isidentifier()) for k in p)


def dotted(root, p):
    c = root
    for k in p:
        if isinstance(c, DictConfig) != isinstance(k, str):
            return None
        c = child(c, k)
    return ".".join(map(str, p)) if okpath(p) else None


def new_key(n, rng, strict=False):
    """A key of an acceptable kind that does not exist."""
    kt = n._metadata.key_type
    if kt in (str,) or strict or is_sc(n):
        ks = ["ocv_new", "zz", "_hidden"]
    elif kt in (int,):
        ks = [77, 78]
    elif kt in (float,):
        ks = [77.5]
    elif kt in (bytes,):
        ks = [b"zz"]
    elif str(kt) == "typing.Any":
        ks = ["ocv_new", 77, 7.25, b"zz", True, T.Color.BLUE]
    else:
        from ocv.snap import keys_of as ko

        ks = [k for k in ([True, False] if kt is bool else list(T.Color)) if k not in ko(n)]
    ks = [k for k in ks if k not in keys_of(n)]
    return rng.choice(ks) if ks else None


def rebuild(path, v):
    for k in reversed(path):
        v = {k: v}
    return v


def some_value(n, g):
    """A value the container's element type accepts."""
    et = n._metadata.element_type
    if is_sc(n) or str(et) == "typing.Any":
        return g.r.choice([1, "x", None, {"a": 1}, [1, 2], {}])
    for k in keys_of(n):
        c = child(n, k)
        if not c._is_missing():
            return c if isinstance(c, (DictConfig, ListConfig)) else raw(c)
    return None


def case(rng, mon, i):
    w = World(rng, mon, flags=0, inter=0.05, kinds="uusstd")
    g = w.g
    # --- switch struct mode on and off at random places
    cs = containers(w.cfg)
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        p, n = rng.choice(cs) if g.chance(0.5) else cs[0]
        v = g.chance(0.8)
        OmegaConf.set_struct(n, v)
        mon.log(f"struct={v} at {p}")
    for _ in range(rng.randint(5, 16)):
        cl = closed_dicts(w.cfg)
        x = rng.random()
        if x < 0.5 and cl:
            p, n = rng.choice(cl)
            refused(w, mon, rng, p, n)
        elif x < 0.62 and cl:
            p, n = rng.choice(cl)
            opened(w, mon, rng, p, n)
        elif x < 0.7:
            p, n = rng.choice(containers(w.cfg))
            existing(w, mon, rng, p, n)
        else:
            if history(w, mon, rng) is False:
                break


def refused(w, mon, rng, p, n):
    g = w.g
    k = new_key(n, rng)
    v = some_value(n, g)
    ks = keys_of(n)
    ident = isinstance(k, str)
    ops = []
    full = dotted(w.cfg, p)
    if k is not None:
        ops += [
            ("[new]", KeyError, lambda: n[k]),
            ("[new] = v", KeyError, lambda: n.__setitem__(k, v)),
            ("setdefault", (KeyError, AttributeError), lambda: n.setdefault(k, v)),
            ("update({new: v})", (KeyError, AttributeError), lambda: n.update({k: v})),
            ("merge_with({new: v})", (KeyError, AttributeError), lambda: n.merge_with({k: v})),
            ("OmegaConf.merge", (KeyError, AttributeError), lambda: OmegaConf.merge(n, {k: v})),
        ]
        mon.check(k not in n, f"the new key {k!r} is contained at {p}", "contains")
        mon.check(n.get(k, "dflt") == "dflt", f"get of a new key with a default at {p}", "get")
        if not any(isinstance(y, int) for y in p) and w.cfg is not n:
            ops.append(("merge at the root", (KeyError, AttributeError), lambda: w.cfg.merge_with(rebuild(p, {k: v}))))
        if ident:
            ops += [
                (".new", AttributeError, lambda: getattr(n, k)),
                (".new = v", AttributeError, lambda: setattr(n, k, v)),
                ("update(**)", (KeyError, AttributeError), lambda: n.update(**{k: v})),
                ("OmegaConf.update", (KeyError, AttributeError), lambda: OmegaConf.update(n, k, v)),
                ("OmegaConf.update merge=False", (KeyError, AttributeError), lambda: OmegaConf.update(n, k, v, merge=False)),
                ("OmegaConf.update deep", (KeyError, AttributeError), lambda: OmegaConf.update(n, k + ".deep", 1)),
                ("dotlist", (KeyError, AttributeError), lambda: n.merge_with_dotlist([f"{k}=1"])),
            ]
            if full:
                path = f"{full}.{k}"
                ops.append(("OmegaConf.update by path", (KeyError, AttributeError), lambda: OmegaConf.update(w.cfg, path, v)))
                mon.check(OmegaConf.select(w.cfg, path) is None, f"select of the new key {path}", "select")
    if ks:
        e = rng.choice(ks)
        ops += [
            ("del [existing]", ConfigTypeError, lambda: n.__delitem__(e)),
            ("pop existing", ConfigTypeError, lambda: n.pop(e)),
            ("pop existing default", ConfigTypeError, lambda: n.pop(e, None)),
            ("clear", ConfigTypeError, lambda: n.clear()),
        ]
        if not child(n, ks[0])._is_missing() and not child(n, ks[0])._is_interpolation():
            ops.append(("popitem", ConfigTypeError, lambda: n.popitem()))
    if k is not None and v is not None:
        ops.append(("pop new", (ConfigTypeError, ConfigKeyError), lambda: n.pop(k)))
    if not ops:
        return
    name, exc, f = rng.choice(ops)
    mon.log(f"at {p} key {k!r} value {v!r}: {name}")
    before = snap(w.cfg)
    try:
        res = f()
    except exc as e:
        mon.check(isinstance(e, OmegaConfBaseException), f"{name} at {p}: {type(e).__name__} is not a config error", "error")
        mon.ev("refusals")
        mon.stat("refused:" + name)
    else:
        mon.fail(f"'{name}' with key {k!r} at {p} succeeded ({res!r:.100})", "accepted", config=w.cfg)
    diff = first_diff(before, snap(w.cfg))
    mon.check(diff is None, f"the refused '{name}' with key {k!r} at {p} changed the config: {diff}", "changed")


def opened(w, mon, rng, p, n):
    """Inside the opening block, or by force, new keys are accepted; the protection is back afterwards."""
    g = w.g
    k = new_key(n, rng)
    if k is None:
        return
    v = some_value(n, g)
    et = n._metadata.element_type
    if str(et) != "typing.Any" and (v is None or is_sc(n)):
        return
    kind = rng.choice(["open_dict", "open_dict", "override", "force", "error"])
    how = rng.choice(["item", "update", "merge", "attr", "oupdate", "umerge"])
    if not isinstance(k, str) and how in ("attr", "oupdate"):
        how = "item"
    if kind == "force" and not isinstance(k, str):
        kind = "open_dict"
    if isinstance(v, (DictConfig, ListConfig)):
        how = "item"
    before = snap(w.cfg)
    flag = own(n)
    mon.log(f"{kind} at {p}: add {k!r} = {v!r} by {how}")

    def add():
        if how == "item":
            n[k] = v
        elif how == "attr":
            setattr(n, k, v)
        elif how == "update":
            n.update({k: v})
        elif how == "oupdate":
            OmegaConf.update(n, k, v)
        else:
            n.merge_with({k: v})

    if kind == "force":
        full = dotted(w.cfg, p)
        if full is not None and g.chance(0.5):
            OmegaConf.update(w.cfg, f"{full}.{k}" if full else k, v, force_add=True, merge=g.chance(0.5))
        else:
            OmegaConf.update(n, k, v, force_add=True, merge=g.chance(0.5))
    elif kind == "error":
        try:
            with open_dict(n):
                add()
                raise RuntimeError("x")
        except RuntimeError:
            pass
    elif kind == "override":
        with flag_override(n, "struct", False):
            add()
    else:
        with open_dict(n) as c:
            mon.check(c is n, "open_dict does not give the config", "open")
            add()
            if g.chance(0.2):
                # deletion works as well
                del n[k]
                mon.check(first_diff(before, snap(w.cfg)) is None or own(n) is False, "delete in block", "open")
                n[k] = v
    mon.check(k in keys_of(n), f"{kind}: the key {k!r} added at {p} is absent", "open")
    mon.check(own(n) == flag, f"{kind} at {p} left the struct flag at {own(n)}, it was {flag}", "flag")
    got = raw(child(n, k))
    simple = not isinstance(v, (DictConfig, ListConfig))  # merged structured values start from their defaults
    mon.check(not simple or got == v or "nan" in repr(v) or T.is_path_like(got, v), f"{kind}: {k!r} at {p} reads {got!r}, assigned {v!r}", "open")
    mon.ev("openings")
    # protection is back
    k2 = new_key(n, rng)
    if k2 is not None:
        snapped = snap(w.cfg)
        try:
            n[k2] = v
        except (ConfigKeyError, ConfigAttributeError):
            pass
        else:
            mon.fail(f"after {kind} the container at {p} still accepts new keys", "reopen")
        mon.check(first_diff(snapped, snap(w.cfg)) is None, f"refused assignment after {kind} changed the config", "changed")
        mon.ev("protection_back")


def existing(w, mon, rng, p, n):
    """Existing keys read and assign as usual; lists grow."""
    if special(n):
        return
    ks = keys_of(n)
    if isinstance(n, ListConfig):
        if not ks:
            return
        k = rng.choice(ks)
        v = raw(child(n, k))
        mon.log(f"append to the list at {p}")
        if v == "???" or isinstance(v, (str, pathlib.Path)) and "${" in str(v):
            n.append(v)
        elif isinstance(child(n, k), (DictConfig, ListConfig)):
            n.append(child(n, k))
        else:
            n.append(v)
        mon.check(len(n) == len(ks) + 1, f"append at {p} did not grow the list", "append")
        mon.ev("lists_grown")
        return
    if not ks:
        return
    k = rng.choice(ks)
    node = child(n, k)
    v = node if isinstance(node, (DictConfig, ListConfig)) else raw(node)
    before = raw(n)
    mon.log(f"assign the existing {k!r} at {p} to itself")
    n[k] = v
    mon.check(raw(n) == before or "nan" in repr(before), f"assigning {k!r} its own value changed {p}", "existing")
    mon.ev("existing_assigned")


def history(w, mon, rng):
    before = [(p, n, n._metadata.object_type, set(keys_of(n)), [child(n, k) for k in keys_of(n)]) for p, n in closed_dicts(w.cfg)]
    w.last = None
    bulk = rng.random() < 0.5
    d, f = w.bulk() if bulk else w.single()
    if "force_add" in d:
        return None
    mon.log(d)
    try:
        f()
    except RecursionError:
        raise
    except Exception as e:  # noqa: BLE001
        mon.log(f"  raised {type(e).__name__}")
        if bulk:
            return False  # a bulk operation that fails half way is not covered
    for p, n, ot, ks, kids in before:
        if special(n):
            continue
        if n._metadata.object_type is not ot and is_sc(n):
            mon.stat("became_structured")  # merging a structured config declares its fields
            return False
        now = set(keys_of(n))
        if now <= ks and ks <= now:
            mon.ev("key_sets_kept")
            continue
        alive = {id(child(n, k)) for k in now}
        if any(id(c) in alive for c in kids) or w.last is None or w.last[1] is n:
            mon.check(now <= ks, f"'{d}' added {sorted(map(str, now - ks))} to the closed container at {p}", "added")
            mon.check(ks <= now, f"'{d}' removed {sorted(map(str, ks - now))} from the closed container at {p}", "removed")
        mon.stat("replaced_as_a_whole")
    return None
