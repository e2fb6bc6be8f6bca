"""C10: nothing under a read-only container changes, whatever is called on it."""
import copy
import pickle

from omegaconf import DictConfig, ListConfig, ListMergeMode, OmegaConf
from omegaconf.base import Container, UnionNode
from omegaconf.errors import ReadonlyConfigError

from ocv.snap import child, containers, first_diff, keys_of, raw, special, tname
from ocv.world import World


def own(n):
    return (n._metadata.flags or {}).get("readonly")


def content(n):
    """Value, key and type of everything a read-only container holds, except below a nearer readonly=False."""
    md = n._metadata
    base = [type(n).__name__, tname(md.ref_type), tname(md.object_type), md.optional]
    if isinstance(n, Container):
        base += [tname(md.key_type), tname(md.element_type)]
        if special(n):
            base.append(repr(n._value()))
        else:
            out = []
            for k in keys_of(n):
                c = child(n, k)
                out.append((type(k).__name__, repr(k), id(c), "open" if own(c) is False else content(c)))
            base.append(tuple(out))
    elif isinstance(n, UnionNode):
        v = n._value()
        base.append((id(v), content(v)) if hasattr(v, "_metadata") else repr(v))
    else:
        v = n._value()
        base.append((type(v).__name__, repr(v)))
    return tuple(base)


def protected(root):
    """(path, container) of every container that is read-only by the documented rule."""
    out = []

    def go(n, path, state):
        f = own(n)
        state = state if f is None else f
        if isinstance(n, Container):
            if state:
                out.append((path, n))
            for k in keys_of(n):
                go(child(n, k), path + (k,), state)

    go(root, (), False)
    return out


def kids(n):
    return [] if special(n) else [child(n, k) for k in keys_of(n)]


def kept(n, before):
    ids = {id(x) for x in before}
    return any(id(x) in ids for x in kids(n))


def reads(root):
    """Results of reading operations, by name."""
    out = {}

    def do(name, f):
        try:
            out[name] = repr(f())
        except RecursionError:
            out[name] = "RecursionError"  # cycles are C16's business
        except Exception as e:  # noqa: BLE001
            out[name] = f"{type(e).__name__}: {e}"

    for p, n in containers(root):
        do(("plain", p), lambda: OmegaConf.to_container(n))
        do(("resolved", p), lambda: OmegaConf.to_container(n, resolve=True))
        do(("len", p), lambda: len(n))
        do(("missing", p), lambda: OmegaConf.missing_keys(n))
        do(("yaml", p), lambda: OmegaConf.to_yaml(n))
        if isinstance(n, DictConfig):
            do(("keys", p), lambda: list(n.keys()))
            for k in keys_of(n):
                do(("get", p, repr(k)), lambda: n[k])
                do(("in", p, repr(k)), lambda: k in n)
        else:
            for k in keys_of(n):
                do(("get", p, k), lambda: n[k])
    return out


def direct(w, path, n):
    """(description, call) of assignments, deletions and insertions that would otherwise succeed."""
    g, r = w.g, w.r
    ks = keys_of(n)
    out = []
    if isinstance(n, DictConfig):
        if not ks:
            return out
        k = r.choice(ks)
        node = child(n, k)
        miss = node._is_missing()
        good = raw(node) if not isinstance(node, Container) else node
        out.append((f"[{k!r}] = its value", lambda: n.__setitem__(k, good)))
        out.append((f"[{k!r}] = '???'", lambda: n.__setitem__(k, "???")))
        if isinstance(k, str) and k.isidentifier():
            out.append((f".{k} = its value", lambda: setattr(n, k, good)))
            out.append((f"del .{k}", lambda: delattr(n, k)))
            out.append((f"update {k}", lambda: OmegaConf.update(n, k, good, merge=False)))
            out.append((f"update {k} force_add", lambda: OmegaConf.update(n, k, good, merge=False, force_add=True)))
        out.append((f"del [{k!r}]", lambda: n.__delitem__(k)))
        if not miss:
            out.append((f"pop {k!r}", lambda: n.pop(k)))
        if not any(child(n, x)._is_missing() or child(n, x)._is_interpolation() for x in ks):
            out.append(("popitem", lambda: n.popitem()))
        out.append(("clear", lambda: n.clear()))
    else:
        if ks:
            k = r.choice(ks)
            node = child(n, k)
            good = raw(node) if not isinstance(node, Container) else node
            out.append((f"[{k}] = its value", lambda: n.__setitem__(k, good)))
            out.append((f"del [{k}]", lambda: n.__delitem__(k)))
            out.append((f"pop {k}", lambda: n.pop(k)))
            out.append(("pop", lambda: n.pop()))
            out.append(("append", lambda: n.append(good)))
            out.append((f"insert {k}", lambda: n.insert(k, good)))
            out.append(("extend", lambda: n.extend([good])))
            out.append(("+=", lambda: n.__iadd__([good])))
            out.append(("slice =", lambda: n.__setitem__(slice(k, k + 1), [good])))
            out.append(("sort", lambda: n.sort(key=str)))
            out.append(("reverse", lambda: n.reverse()))
            out.append(("clear", lambda: n.clear()))
            out.append((f"del [{k}:{k + 1}]", lambda: n.__delitem__(slice(k, k + 1))))
    return out


def case(rng, mon, i):
    w = World(rng, mon, flags=0)
    g = w.g
    before = reads(w.cfg)
    # --- choose flags: one protected subtree at least
    cs = containers(w.cfg)
    path, n = rng.choice(cs) if g.chance(0.5) else cs[0]
    OmegaConf.set_readonly(n, True)
    mon.log(f"readonly at {path}")
    if g.chance(0.4):
        p2, n2 = rng.choice(cs)
        if n2 is not n:
            v = g.chance(0.3)
            OmegaConf.set_readonly(n2, v)
            mon.log(f"readonly={v} at {p2}")
    if g.chance(0.2):
        p3, n3 = rng.choice(cs)
        OmegaConf.set_struct(n3, True)
        mon.log(f"struct at {p3}")
    elif g.chance(0.3):
        # reading is unaffected by the flag
        after = reads(w.cfg)
        for k in before:
            mon.check(before[k] == after[k], f"reading {k} differs once read-only", "read", before=before[k], after=after[k])
        mon.ev("reads_unchanged", len(before))
    for p, n in protected(w.cfg):
        mon.check(OmegaConf.is_readonly(n) is True, f"{p} is not reported read-only", "is_readonly")

    for _ in range(rng.randint(4, 14)):
        prot = protected(w.cfg)
        if not prot:
            break
        ids = {id(n) for _, n in prot}
        snaps = [(p, n, content(n), kids(n)) for p, n in prot]
        x = rng.random()
        must = False
        w.last = None
        if x < 0.4:
            p, n = rng.choice(prot)
            ops = [] if special(n) else direct(w, p, n)
            if not ops:
                continue
            d, f = rng.choice(ops)
            d = f"at {p}: {d}"
            must = True
        elif x < 0.65:
            d, f = w.single()
        elif x < 0.93:
            d, f = w.bulk()
        else:
            p, n = rng.choice(prot)
            d, f = copies(w, mon, p, n)
        mon.log(d)
        err = None
        try:
            f()
        except RecursionError:
            raise
        except Exception as e:  # noqa: BLE001
            if type(e).__name__ == "Violation":
                raise
            err = e
            mon.log(f"  raised {type(e).__name__}")
        # a writable container may be given a new value for a slot that holds a read-only container: all of its content
        # is replaced then (in place or not)
        outside = w.last is not None and id(w.last[1]) not in ids
        for p, n, s, ks in snaps:
            diff = first_diff(s, content(n))
            if diff and outside and not kept(n, ks) and id(n._get_parent()) not in ids:
                mon.stat("replaced_from_outside")
                continue
            if diff:
                mon.fail(f"'{d}' changed the read-only container at {p}: {diff}", "changed", error=repr(err))
        mon.ev("protected_unchanged", len(snaps))
        if must:
            mon.check(
                isinstance(err, ReadonlyConfigError),
                f"'{d}' on a read-only container raised {type(err).__name__} ({err}) instead of the read-only error",
                "error",
            )
            mon.ev("readonly_errors")
        elif isinstance(err, ReadonlyConfigError):
            mon.stat("other_readonly_errors")


def copies(w, mon, p, n):
    """Copying out of a read-only config."""
    g, r = w.g, w.r
    k = r.choice(["copy", "deepcopy", "pickle", "merge", "adopt", "create"])

    def same_flags(a, b, what):
        pa = {x for x, _ in protected(a)}
        pb = {x for x, _ in protected(b)}
        mon.check(pa == pb, f"{what}: read-only at {sorted(map(str, pb))}, the original at {sorted(map(str, pa))}", "copyflags")
        mon.check(raw(a) == raw(b) or "nan" in repr(raw(a)), f"{what}: content differs", "copycontent")
        mon.ev("copies_checked")

    def f():
        root = w.cfg
        if k == "copy":
            same_flags(root, copy.copy(root), "copy")
        elif k == "deepcopy":
            same_flags(root, copy.deepcopy(root), "deepcopy")
        elif k == "pickle":
            same_flags(root, pickle.loads(pickle.dumps(root)), "pickle")
        elif k == "create":
            # a writable copy
            c = OmegaConf.create(OmegaConf.to_container(n))
            mon.check(raw(c) == raw(n) or "nan" in repr(raw(c)) or OmegaConf.is_config(c), "create from read-only", "create")
        elif k == "merge":
            if special(n) or own(n) is False:
                return
            other = {} if isinstance(n, DictConfig) else []
            res = OmegaConf.merge(n, other)
            if not isinstance(n, ListConfig):
                mon.check(raw(res) == raw(n) or "nan" in repr(raw(n)), "merge of a read-only config with nothing differs", "merge")
            if own(n):
                mon.check(OmegaConf.is_readonly(res) is True, "the merge of a read-only config is not read-only", "mergeflag")
            mon.ev("copies_checked")
        else:
            host = OmegaConf.create({"x": None})
            host.x = n
            mon.check(
                OmegaConf.to_container(host)["x"] == OmegaConf.to_container(n) or "nan" in repr(raw(n)),
                "a read-only container assigned elsewhere differs", "adopt",
            )  # fmt: skip
            if own(n) and not special(n):
                mon.check(OmegaConf.is_readonly(host.x) is True, "the assigned copy of a read-only container is not", "adoptflag")
                try:
                    host.x.clear()
                except ReadonlyConfigError:
                    pass
                else:
                    mon.check(special(n), "the read-only copy was cleared", "adoptflag") if keys_of(n) else None
            mon.ev("copies_checked")

    return f"{k} of the read-only container at {p}", f
