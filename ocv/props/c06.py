"""C06: nothing that succeeds puts an ill-typed value into a typed config."""
import copy
import pickle

from omegaconf import DictConfig, ListConfig, OmegaConf, ValidationError

from ocv import types_ as T
from ocv.snap import child, containers, keys_of, raw
from ocv.world import World


def slots(node, t, path=()):
    """(path, parent, key, declared type) of every typed place in the live config."""
    b = T.base(t)
    if not isinstance(node, (DictConfig, ListConfig)):
        return
    if b[0] == "sc":
        sub = T.BY_CLS.get(node._metadata.object_type, b[1])
        ts = lambda k: sub.types.get(k)  # noqa: E731
    elif b[0] == "dict":
        ts = lambda k: b[2]  # noqa: E731
    elif b[0] == "list":
        ts = lambda k: b[1]  # noqa: E731
    else:
        return
    for k in keys_of(node):
        ft = ts(k)
        if ft is None:
            continue
        yield path + (k,), node, k, ft
        yield from slots(child(node, k), ft, path + (k,))


def probe(w, mon, cfg, what):
    """Declared types are still enforced."""
    for _ in range(6):
        ss = list(slots(cfg, w.t))
        if not ss:
            return
        path, parent, k, t = w.r.choice(ss)
        b = T.base(t)
        v = T.odd_value(w.g)
        if b[0] in ("any", "sc"):
            if b[0] == "any":
                continue
            v = w.r.choice([5, "x", [1], True, {"no_such_field_": 1}])
            want = T.Bad
        else:
            try:
                want = T.conv(t, v)
            except T.Bad:
                want = T.Bad
        if isinstance(v, str) and ("${" in v or v == "???"):
            continue
        if want is T.Bad:
            try:
                parent[k] = v
            except (ValidationError, KeyError, TypeError, ValueError, AttributeError):
                mon.ev("enforcement_probes")
                continue
            mon.fail(
                f"{what}: the field at {path}, declared {T.show(t)}, accepts {v!r}", "not-enforced", config=raw(cfg)
            )
        elif isinstance(want, (dict, list)):
            continue
        else:
            parent[k] = v
            mon.ev("enforcement_probes")
        e = T.conforms(cfg, w.t)
        mon.check(not e, f"{what}: after assigning {v!r} at {path}: {e}", "ill-typed", config=raw(cfg))


def case(rng, mon, i):
    w = World(rng, mon, kinds="stdl", flags=0.0)
    if w.scs and rng.random() < 0.4:
        base = rng.choice(w.scs)
        sub = T.make_sc(w.g, [("sub1", T.gen_type(w.g, 1), T.NODEF)], base.flavor, base=base)
        mon.log("subclass", repr(sub))
        w.scs = w.scs + [sub]
    e = T.conforms(w.cfg, w.t)
    mon.check(not e, f"creation: {e}", "ill-typed")
    mon.ev("states_conform")
    for _ in range(rng.randint(4, 18)):
        bulk = rng.random() < 0.45
        d, f = w.bulk() if bulk else w.single()
        mon.log(d)
        try:
            f()
        except RecursionError:
            raise
        except Exception as ex:  # noqa: BLE001
            mon.log(f"  raised {type(ex).__name__}")
            mon.stat("rejected")
            ok = False
        else:
            mon.stat("accepted")
            ok = True
        e = T.conforms(w.cfg, w.t)
        mon.check(not e, f"after {'' if ok else 'the rejected '}'{d}': {e}", "ill-typed", config=raw(w.cfg))
        mon.ev("states_conform")
        if bulk and not ok:
            mon.stat("failed_bulk")
    x = rng.random()
    if x < 0.2:
        probe(w, mon, copy.deepcopy(w.cfg), "deep copy")
    elif x < 0.4:
        probe(w, mon, pickle.loads(pickle.dumps(w.cfg)), "pickle")
    elif x < 0.6:
        m = OmegaConf.merge(w.cfg, {} if isinstance(w.cfg, DictConfig) else [])
        e = T.conforms(m, w.t)
        mon.check(not e, f"merge result: {e}", "ill-typed", config=raw(m))
        probe(w, mon, m, "merge result")
    else:
        probe(w, mon, w.cfg, "config")
    mon.stat("containers_at_end", len(containers(w.cfg)))
