"""C03: after any history every node knows its container and its key, and full keys lead back to the node."""
import copy
import pickle

from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.base import UnionNode

from ocv.snap import child, containers, keys_of, nodes, wellformed
from ocv.world import World


def selectable(k):
    if isinstance(k, int) and not isinstance(k, bool):
        return True
    return isinstance(k, str) and k != "" and not any(ch in k for ch in ".[]") and k.strip() == k


def full_keys(cfg, mon, ctx):
    """Full keys reported by nodes address those very nodes."""
    for path, parent, node in nodes(cfg):
        if not path or isinstance(parent, UnionNode):
            continue
        if not all(isinstance(k, str) and selectable(k) or type(k) is int for k in path):
            continue
        p = cfg
        good = True
        for k in path:
            if isinstance(p, DictConfig) and not isinstance(k, str):
                good = False  # select() only addresses string keys in dicts
                break
            p = child(p, k)
        if not good:
            continue
        fk = node._get_full_key(None)
        want = ""
        for n, k in enumerate(path):
            want += f"[{k}]" if type(k) is int else (f".{k}" if n else k)
        mon.check(fk == want, f"{ctx}: node at {path} reports the full key {fk!r}, expected {want!r}", "full_key", root=cfg)
        mon.ev("full_keys_checked")
        if node._is_missing() or node._is_interpolation():
            continue
        got = OmegaConf.select(cfg, fk)
        if isinstance(node, (DictConfig, ListConfig)):
            if not node._is_none():
                mon.check(got is node, f"{ctx}: select({fk!r}) does not return the node at that key", "select", root=cfg)
        else:
            v = node._value()
            v = v._value() if isinstance(node, UnionNode) and v is not None else v
            mon.check(
                got is v or got == v or got != got, f"{ctx}: select({fk!r}) gives {got!r}, the node holds {v!r}", "select"
            )


def check(cfg, mon, ctx):
    n = wellformed(cfg, mon, ctx)
    mon.ev("nodes_checked", n)


def adopting(rng, mon):
    """Nodes of other configs may be adopted, those of the config itself are copied all the same."""
    def tree(d):
        return {k: tree(d - 1) if d and rng.random() < 0.7 else rng.choice([1, "x", None, "${.q}"]) for k in rng.sample("abcd", rng.randint(1, 3))}

    cfg = OmegaConf.create(tree(3), flags={"no_deepcopy_set_nodes": True})
    check(cfg, mon, "creation")
    for _ in range(rng.randint(1, 5)):
        cs = [(p, c) for p, c in containers(cfg) if isinstance(c, DictConfig)]
        p, c = rng.choice(cs)
        q, v = rng.choice(cs)
        k = rng.choice("abcdxyz")
        if p[: len(q)] == q or len(cs) > 40:
            continue
        if rng.random() < 0.3:
            v, q = OmegaConf.create({"n": tree(2)}), "another config"
        how = rng.choice(["item", "attribute", "setdefault"] if k in "xyz" and k not in c else ["item", "attribute"])
        mon.log(f"{how} {k} of {p} = {q}, no_deepcopy_set_nodes")
        if how == "item":
            c[k] = v
        elif how == "attribute":
            setattr(c, k, v)
        else:
            c.setdefault(k, v)
        check(cfg, mon, f"after {how} {k} of {p} = {q}")
        mon.ev("nodes_adopted")


def case(rng, mon, i):
    if rng.random() < 0.06:
        return adopting(rng, mon)
    w = World(rng, mon, flags=rng.choice([0, 0, 0, 0.05]))
    if rng.random() < 0.2:
        w.own = 0.3
    check(w.cfg, mon, "creation")
    for _ in range(rng.randint(4, 16)):
        x = rng.random()
        bulk = 0.6 <= x < 0.85
        if x < 0.6:
            d, f = w.single()
        elif x < 0.85:
            d, f = w.bulk()
        else:
            path, n = w.pick()
            k = rng.choice(["copy", "deepcopy", "pickle", "merge", "unsafe", "add", "create", "masked", "adopt"])
            d = f"{k} of node at {path}"
            mon.log(d)
            try:
                if k == "copy":
                    res = n.copy()
                elif k == "deepcopy":
                    res = copy.deepcopy(n)
                elif k == "pickle":
                    res = pickle.loads(pickle.dumps(n))
                elif k in ("merge", "unsafe"):
                    other = w.g.tree(depth=2, width=3, root="dict" if isinstance(n, DictConfig) else "list")
                    base = n if k == "merge" else copy.deepcopy(n)
                    res = (OmegaConf.merge if k == "merge" else OmegaConf.unsafe_merge)(base, other)
                elif k == "add":
                    res = n + [w.value()[0]]
                elif k == "create":
                    res = OmegaConf.create(n)
                elif k == "masked":
                    res = OmegaConf.masked_copy(n, list(keys_of(n))[:2])
                else:
                    # a sub-config becomes the config under test: it stays well-formed
                    if path and isinstance(n, (DictConfig, ListConfig)):
                        cp = copy.deepcopy(n)
                        cp._set_parent(None)
                        cp._set_key(None)
                        w.cfg, w.t = cp, ("any",)
                    res = w.cfg
            except Exception as e:  # noqa: BLE001
                mon.log(f"  raised {type(e).__name__}")
                res = w.cfg
            if isinstance(res, (DictConfig, ListConfig)):
                check(res, mon, f"result of {d}")
            check(w.cfg, mon, f"source after {d}")
            continue
        mon.log(d)
        try:
            f()
        except RecursionError:
            raise
        except Exception as e:  # noqa: BLE001
            mon.log(f"  raised {type(e).__name__}")
            if bulk:
                break  # a bulk operation that fails half way is not covered by the property
        else:
            mon.stat("ops_succeeded")
        check(w.cfg, mon, f"after '{d}'")
        if len(list(nodes(w.cfg))) > 400:
            break
    else:
        full_keys(w.cfg, mon, "at the end")
    mon.stat("containers_at_end", len(containers(w.cfg)))
