"""C11: the effective value of a flag is the nearest own setting; contexts restore exactly what was there."""
import copy
import pickle

from omegaconf import DictConfig, OmegaConf, flag_override, open_dict, read_write
from omegaconf.base import Container, Node, UnionNode
from omegaconf.errors import ReadonlyConfigError

from ocv.gen import G
from ocv.snap import child, containers, keys_of, nodes, special
from ocv.world import World

FLAGS = ["readonly", "struct", "mine"]


class Boom(Exception):
    pass


class Model:
    """Own settings by node object; everything not recorded is unset."""

    def __init__(self, mon):
        self.mon = mon
        self.own = {}
        self.keep = []

    def of(self, n):
        return self.own.get(id(n), {})

    def set(self, n, flag, v):
        self.keep.append(n)
        d = self.own.setdefault(id(n), {})
        if v is None:
            d.pop(flag, None)
        else:
            d[flag] = v

    def clone(self, src, dst):
        """dst is a copy of src made by the library: same own settings everywhere."""
        self.keep.append(dst)
        if self.of(src):
            self.own[id(dst)] = dict(self.of(src))
        if isinstance(src, Container) and isinstance(dst, Container):
            for k in keys_of(src):
                self.clone(child(src, k), child(dst, k))
        elif isinstance(src, UnionNode) and isinstance(src._value(), Node):
            self.clone(src._value(), dst._value())

    def walk(self, root):
        """(path, node, {flag: effective})"""

        def go(n, path, eff):
            eff = {**eff, **self.of(n)}
            yield path, n, eff
            if isinstance(n, Container):
                for k in keys_of(n):
                    yield from go(child(n, k), path + (k,), eff)
            elif isinstance(n, UnionNode) and isinstance(n._value(), Node):
                yield from go(n._value(), path, eff)

        yield from go(root, (), {})

    def eff(self, root, node):
        for _, n, e in self.walk(root):
            if n is node:
                return e
        return None

    def check(self, root, ctx, rng=None):
        mon = self.mon
        for path, n, eff in self.walk(root):
            if rng is not None and rng.random() < 0.6:
                continue  # leave some caches unfilled
            for f in FLAGS:
                got, want = n._get_flag(f), eff.get(f)
                mon.check(
                    got is want, f"{ctx}: flag {f} of the node at {path} is {got}, expected {want}", "effective",
                    own=self.of(n),
                )  # fmt: skip
                mon.ev("effective_flags_compared")
            if isinstance(n, Container):
                mon.check(OmegaConf.is_readonly(n) is eff.get("readonly"), f"{ctx}: is_readonly at {path}", "is_readonly")
                mon.check(OmegaConf.is_struct(n) is eff.get("struct"), f"{ctx}: is_struct at {path}", "is_struct")
            own = {f: v for f, v in self.of(n).items()}
            got = {f: n._get_node_flag(f) for f in FLAGS if n._get_node_flag(f) is not None}
            mon.check(got == own, f"{ctx}: own flags of {path} are {got}, expected {own}", "own")


def wanted(rng):
    return rng.choice([True, True, False, None])


def case(rng, mon, i):
    g = G(rng)
    m = Model(mon)
    if rng.random() < 0.65:
        tree = g.tree(depth=4, width=3, keys="s", root=rng.choice(["dict", "dict", "list"]), idents=True, kinds="nbis")
        mon.log("create", tree)
        fl = None
        if g.chance(0.3):
            fl = {rng.choice(FLAGS): g.chance(0.6) for _ in range(2)}
            mon.log("flags", fl)
        cfg = OmegaConf.create(tree, flags=fl)
        for f, v in (fl or {}).items():
            m.set(cfg, f, v)
        typed = False
    else:
        w = World(rng, mon, flags=0, kinds="stdl")
        cfg = w.cfg
        typed = True
    stack = []  # open contexts: (kind, node, names, prev, cm)
    m.check(cfg, "creation", rng)

    def pick(only_containers=False):
        ns = containers(cfg) if only_containers else [(p, n) for p, _, n in nodes(cfg)]
        return rng.choice(ns)

    def close(idx, how):
        kind, node, names, prev, cm = stack.pop(idx)
        mon.log(f"leave {kind} {names} ({how})")
        if how == "error":
            try:
                cm.__exit__(Boom, Boom("x"), None)
            except Boom:
                pass
        else:
            cm.__exit__(None, None, None)
        for f, v in zip(names, prev):
            m.set(node, f, v)
        got = [node._get_node_flag(f) for f in names]
        mon.check(got == list(prev), f"{kind} left {names} as {got}, before the block it was {prev}", "restore")
        mon.ev("contexts_closed")

    for _ in range(rng.randint(6, 24)):
        x = rng.random()
        if x < 0.3:
            p, n = pick()
            f, v = rng.choice(FLAGS), wanted(rng)
            how = rng.choice(["api", "raw", "multi"])
            mon.log(f"{how} {f}={v} at {p}")
            if how == "api" and f != "mine" and isinstance(n, Container):
                (OmegaConf.set_readonly if f == "readonly" else OmegaConf.set_struct)(n, v)
                m.set(n, f, v)
            elif how == "multi":
                if g.chance(0.5):
                    n._set_flag(list(FLAGS), v)
                    for ff in FLAGS:
                        m.set(n, ff, v)
                else:
                    vs = [wanted(rng) for _ in FLAGS]
                    n._set_flag(list(FLAGS), vs)
                    for ff, vv in zip(FLAGS, vs):
                        m.set(n, ff, vv)
            else:
                n._set_flag(f, v)
                m.set(n, f, v)
        elif x < 0.45:
            kind = rng.choice(["flag_override", "flag_override", "read_write", "open_dict"])
            p, n = pick(kind != "flag_override")
            if kind == "flag_override":
                names = rng.sample(FLAGS, rng.randint(1, 3))
                vals = [wanted(rng) for _ in names]
                form = rng.choice(["lists", "same", "bad"])
                if form == "bad" and len(names) > 2:
                    # inconsistent lengths are refused and change nothing
                    try:
                        with flag_override(n, names, vals[:2]):
                            mon.fail("flag_override accepted 2 values for 3 names", "lengths")
                    except ValueError:
                        pass
                    mon.ev("bad_override")
                    m.check(cfg, "refused flag_override")
                    continue
                if form == "same" or len(names) == 1:
                    vals = [vals[0]] * len(names)
                    cm = flag_override(n, names if len(names) > 1 or g.chance(0.5) else names[0], vals[0])
                else:
                    cm = flag_override(n, names, vals)
            elif kind == "read_write":
                names, vals, cm = ["readonly"], [False], read_write(n)
            else:
                names, vals, cm = ["struct"], [False], open_dict(n)
            busy = any(s[1] is n and set(s[2]) & set(names) for s in stack)
            prev = [m.of(n).get(f) for f in names]
            mon.log(f"enter {kind} {names}={vals} at {p}")
            got = cm.__enter__()
            mon.check(got is n, f"{kind} does not give the config", "enter")
            for f, v in zip(names, vals):
                m.set(n, f, v)
            stack.append((kind, n, names, prev, cm))
            if busy:
                # on the same node and flag the blocks nest: the last one opened is closed first
                m.check(cfg, "inside a nested context", rng)
                close(len(stack) - 1, "normal")
        elif x < 0.58 and stack:
            idx = rng.randrange(len(stack))
            _, n, names, _, _ = stack[idx]
            while any(s[1] is n and set(s[2]) & set(names) for s in stack[idx + 1 :]):
                idx += 1
                _, n, names, _, _ = stack[idx]
            close(idx, rng.choice(["normal", "error"]))
        elif x < 0.66:
            p, n = pick(True)
            behave(cfg, m, mon, rng, p, n)
        elif x < 0.74:
            kind = rng.choice(["deepcopy", "copy", "pickle"])
            mon.log(f"{kind} of the root")
            new = dict(deepcopy=copy.deepcopy, copy=copy.copy, pickle=lambda c: pickle.loads(pickle.dumps(c)))[kind](cfg)
            m.clone(cfg, new)
            m.check(new, f"{kind} of the root")
            if g.chance(0.5):
                # continue with the copy; a change of the original's flags does not reach it
                while stack:
                    close(len(stack) - 1, "normal")
                old, cfg = cfg, cfg
                new2 = dict(deepcopy=copy.deepcopy, copy=copy.copy)[rng.choice(["deepcopy", "copy"])](old)
                m.clone(old, new2)
                for f in FLAGS:
                    v = wanted(rng)
                    old._set_flag(f, v)
                    m.set(old, f, v)
                m.check(new2, "a copy after the original's flags changed")
                cfg = new2
        elif x < 0.8:
            p, n = pick(True)
            if p and not special(n):
                mon.log(f"deepcopy of the sub-config at {p}")
                new = copy.deepcopy(n)
                m.clone(n, new)
                eff = m.eff(cfg, n)
                for f in FLAGS:
                    mon.check(
                        new._get_node_flag(f) == m.of(n).get(f),
                        f"the deep copy of {p} has own {f}={new._get_node_flag(f)}, original {m.of(n).get(f)}", "subcopy",
                    )  # fmt: skip
                    if new._get_parent() is n._get_parent():
                        mon.check(new._get_flag(f) is eff.get(f), f"the deep copy of {p} has {f}={new._get_flag(f)}", "subcopy")
                mon.ev("subcopies_checked")
        elif typed:
            continue
        else:
            structural(cfg, m, mon, rng, g, stack)
        m.check(cfg, "after the step", rng if g.chance(0.7) else None)
    while stack:
        close(len(stack) - 1, rng.choice(["normal", "error"]))
        m.check(cfg, "after leaving", rng)
    m.check(cfg, "at the end")


def behave(cfg, m, mon, rng, p, n):
    """The effective flags decide what the container accepts."""
    if special(n) or not isinstance(n, DictConfig) or n._metadata.object_type is not dict:
        return
    kt, et = n._metadata.key_type, n._metadata.element_type
    if kt not in (str,) and str(kt) != "typing.Any" or str(et) != "typing.Any":
        return
    eff = m.eff(cfg, n)
    key = "ocv_new"
    try:
        n[key] = 1
        res = "ok"
    except ReadonlyConfigError:
        res = "readonly"
    except KeyError:
        res = "struct"
    want = "readonly" if eff.get("readonly") else "struct" if eff.get("struct") else "ok"
    # a struct violation may be found before the read-only one
    okay = res == want or (want == "readonly" and res == "struct" and eff.get("struct"))
    mon.check(okay, f"assigning a new key at {p} gave {res}, the flags are {eff}", "behaviour")
    mon.ev("behaviour_agreed")
    if res == "ok":
        del n._content[key]


def structural(cfg, m, mon, rng, g, stack):
    """Moves and replacements of untyped content."""
    cs = containers(cfg)
    p, n = rng.choice(cs)
    eff = m.eff(cfg, n)
    op = rng.choice(["new", "adopt", "move", "pop", "merge", "insert"])
    src = None
    if op in ("adopt", "insert"):
        t = g.tree(depth=2, width=2, root=rng.choice(["dict", "list"]), idents=True, kinds="is")
        src = OmegaConf.create(t)
        for _ in range(2):
            _, x = rng.choice([(q, y) for q, _, y in nodes(src)])
            f, v = rng.choice(FLAGS), g.chance(0.6)
            if isinstance(x, Container):
                x._set_flag(f, v)
                m.set(x, f, v)
        m.check(src, "detached config", rng)
    elif op == "move":
        q, src = rng.choice(cs)
        if src is cfg:
            return
        if q == p[: len(q)]:
            return
    mon.log(f"{op} at {p}")
    if op == "merge":
        if not isinstance(n, DictConfig) or n is not cfg:
            return
        other = OmegaConf.create({})
        f, v = rng.choice(FLAGS[1:]), g.chance(0.6)
        other._set_flag(f, v)
        before = dict(m.of(n))
        if m.eff(cfg, n).get("readonly"):
            return
        n.merge_with(other)
        m.set(n, f, v)
        mon.check(n._get_node_flag(f) is v, f"merging a config with {f}={v} left it {n._get_node_flag(f)}", "merge", own=before)
        return
    if op == "pop":
        ks = keys_of(n)
        if not ks or eff.get("readonly") or (isinstance(n, DictConfig) and eff.get("struct")):
            return
        k = rng.choice(ks)
        c = child(n, k)
        if any(x is s[1] for s in stack for _, _, x in nodes(c)):
            return
        del n[k]
        return
    try:
        if isinstance(n, DictConfig):
            k = rng.choice(keys_of(n) or ["a"]) if g.chance(0.7) else g.ident()
            had = k in keys_of(n)
            if had and m.eff(cfg, child(n, k)).get("readonly") and not eff.get("readonly"):
                return  # a value with a read-only setting of its own
            if op == "new":
                v = g.tree(depth=2, width=2, idents=True, kinds="is")
                n[k] = v
            else:
                n[k] = src
            allowed = not eff.get("readonly") and (had or not eff.get("struct"))
        elif op == "insert" and len(n):
            k = rng.randrange(len(n))
            n.insert(k, src)
            allowed = not eff.get("readonly")
        else:
            n.append(src if op != "new" else g.tree(depth=1, idents=True, kinds="is"))
            k = len(n) - 1
            allowed = not eff.get("readonly")
    except (ReadonlyConfigError, KeyError, AttributeError) as e:
        mon.log(f"  raised {type(e).__name__}")
        allowed = bool(eff.get("readonly") or eff.get("struct"))
        mon.check(allowed, f"{op} at {p} raised {type(e).__name__} although the flags {eff} allow it", "behaviour")
        mon.ev("behaviour_agreed")
        return
    mon.check(allowed, f"{op} at {p} succeeded although the flags are {eff}", "behaviour")
    mon.ev("behaviour_agreed")
    if src is not None:
        m.clone(src, child(n, k))
        m.keep.append(src)
        mon.ev("adopted")

