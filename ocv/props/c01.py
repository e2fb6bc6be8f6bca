"""C01: an untyped config behaves like the plain dict/list it was built from."""
import collections

from omegaconf import DictConfig, ListConfig, OmegaConf

from ocv.gen import G, clone, same, walk

ODD_KEYS = ["keys", "items", "_content", "_parent", "__class__", "get", "pop", "0", "", "a.b", "a[0]", "${", " "]


def first(x):
    return x[0]


class P(G):
    def ckey(self):
        if self.chance(0.1):
            return self.r.choice(ODD_KEYS)
        return self.key()


def plain(x):
    if isinstance(x, (DictConfig, ListConfig)):
        return OmegaConf.to_container(x, resolve=False)
    return x


def norm(x):
    if type(x) in (list, tuple):
        return [norm(v) for v in x]
    if type(x) is dict:
        return {k: norm(v) for k, v in x.items()}
    return x


class Run:
    def __init__(self, rng, mon):
        self.g = P(rng)
        self.r = rng
        self.mon = mon
        root = self.g.tree(depth=3, keys="sssifbBE", root=rng.choice(["dict", "dict", "list"]))
        mon.log("create", root)
        self.pool = [(OmegaConf.create(clone(root)), root)]
        # every structure is deep: the config never aliases the input
        self.compare("create")

    def value(self):
        r = self.r
        k = r.random()
        if k < 0.12:
            c, m = r.choice(self.pool)
            if sum(1 for _ in walk(m)) < 60:
                return c, clone(m)
        if k < 0.2:
            t = tuple(self.g.prim() for _ in range(r.randint(0, 3)))
            return t, list(t)
        v = self.g.tree(depth=2, width=3, keys="sssifbBE")
        return clone(v), v

    def lst(self):
        v = [self.g.tree(depth=1, width=2) for _ in range(self.r.randint(0, 4))]
        k = self.r.random()
        if k < 0.15:
            return OmegaConf.create(clone(v)), v
        if k < 0.3:
            return tuple(clone(v)), v
        return clone(v), v

    def iterable(self):
        """Something with the items of a list, not necessarily a sequence."""
        cv, mv = self.lst()
        if isinstance(cv, list) and self.r.random() < 0.35:
            self.mon.ev("plain_iterables")
            cv = self.r.choice([lambda: iter(cv), lambda: (x for x in cv), lambda: collections.deque(cv), lambda: map(lambda x: x, cv)])()
        return cv, mv

    def compare(self, what):
        for c, m in self.pool:
            p = plain(c)
            self.mon.check(
                same(p, norm(m)), f"{what}: the config differs from the dict/list model", "content", config=p, model=m
            )
            self.mon.check(len(c) == len(m), f"{what}: len() differs", "len", config=p, model=m)
        c, m = self.pool[0]
        self.mon.check(str(c) == str(m), f"{what}: str(cfg) differs from str() of the content", "str", config=str(c), model=str(m))
        self.mon.ev("states_compared", len(self.pool))

    def reach(self, m):
        return {id(v) for p, v in walk(m) if isinstance(v, (dict, list)) and p}

    def add(self, c, m):
        if isinstance(c, (DictConfig, ListConfig)) and isinstance(m, (dict, list)):
            if not any(x is c for x, _ in self.pool):
                self.pool.append((c, m))
                if len(self.pool) > 6:
                    self.pool.pop(self.r.randint(1, 5))

    def both(self, what, fc, fm, errs, add=True):
        """Apply the operation to config and model; results and errors must correspond."""
        self.mon.log(what)
        try:
            m = ("ok", fm())
        except errs as e:
            m = ("err", e)
        try:
            c = ("ok", fc())
        except Exception as e:  # noqa: BLE001
            c = ("err", e)
        if c[0] != m[0]:
            self.mon.fail(f"{what}: config {c[0]} {c[1]!r}, plain container {m[0]} {m[1]!r}", "outcome")
        if c[0] == "err":
            kind = next(k for k in errs if isinstance(m[1], k))
            self.mon.check(
                isinstance(c[1], kind), f"{what}: raised {type(c[1]).__name__}, expected a {kind.__name__}", "errkind"
            )
            self.mon.ev("errors_agreed")
        else:
            self.mon.check(
                same(norm(plain(c[1])), norm(m[1])), f"{what}: result differs", "result", config=c[1], model=m[1]
            )
            self.mon.ev("results_agreed")
            if add:
                self.add(c[1], m[1])
        return c[0] == "ok"

    def step(self):
        r = self.r
        c, m = r.choice(self.pool)
        if self.g.chance(0.35):  # go to a nested container through attribute/item access
            subs = list(m) if isinstance(m, dict) else list(range(len(m)))
            subs = [k for k in subs if isinstance(m[k], (dict, list))]
            if subs:
                k = r.choice(subs)
                self.both(f"descend[{k!r}]", lambda: c[k], lambda: m[k], (KeyError, IndexError))
                c, m = c[k], m[k]
        if isinstance(m, dict):
            self.dict_op(c, m)
        else:
            self.list_op(c, m)

    def dict_op(self, c, m):
        r, g = self.r, self.g
        k = r.choice(list(m)) if m and g.chance(0.6) else g.ckey()
        op = r.choice(
            "set set set attr get getattr getd del pop popd setdefault update updatekw clear in iter eq copy bad".split()
        )
        what = f"dict.{op}[{k!r}]"
        if op == "set":
            cv, mv = self.value()
            self.both(f"{what}={cv!r:.200}", lambda: c.__setitem__(k, cv), lambda: m.__setitem__(k, mv), ())
        elif op == "attr":
            k = g.ident()
            cv, mv = self.value()
            self.both(f"dict.attr.{k}={cv!r:.200}", lambda: setattr(c, k, cv), lambda: m.__setitem__(k, mv), ())
        elif op == "get":
            self.both(what, lambda: c[k], lambda: m[k], (KeyError,))
        elif op == "getattr":
            k = g.ident()

            def ga():
                if k not in m:
                    raise AttributeError(k)
                return m[k]

            self.both(f"dict.getattr.{k}", lambda: getattr(c, k), ga, (AttributeError,))
        elif op == "getd":
            d = g.prim()
            self.both(what, lambda: c.get(k, d), lambda: m.get(k, d), ())
            self.both(what, lambda: c.get(k), lambda: m.get(k), ())
        elif op == "del":
            self.both(what, lambda: c.__delitem__(k), lambda: m.__delitem__(k), (KeyError,))
        elif op == "pop":
            self.both(what, lambda: c.pop(k), lambda: m.pop(k), (KeyError,))
        elif op == "popd":
            d = g.prim()
            self.both(what, lambda: c.pop(k, d), lambda: m.pop(k, d), ())
        elif op == "setdefault":
            cv, mv = self.value()
            cv = clone(mv)
            self.both(f"{what},{cv!r:.200}", lambda: c.setdefault(k, cv), lambda: m.setdefault(k, mv), (), add=False)
        elif op == "update":
            cv = {g.ckey(): self.g.tree(depth=1) for _ in range(r.randint(0, 3))}
            if g.chance(0.3):
                arg = list(cv.items())
            else:
                arg = clone(cv)
            self.both(f"dict.update({arg!r:.200})", lambda: c.update(arg), lambda: m.update(cv), ())
        elif op == "updatekw":
            cv = {g.ident(): self.g.tree(depth=1) for _ in range(r.randint(0, 3))}
            self.both(f"dict.update(**{cv!r:.200})", lambda: c.update(**clone(cv)), lambda: m.update(**cv), ())
        elif op == "clear":
            if g.chance(0.3):
                self.both(what, lambda: c.clear(), lambda: m.clear(), ())
        elif op == "in":
            self.both(what, lambda: k in c, lambda: k in m, ())
        elif op == "iter":
            self.both(what, lambda: list(c), lambda: list(m), ())
            self.both(what, lambda: list(c.keys()), lambda: list(m.keys()), ())
            self.both(
                what, lambda: [[a, plain(b)] for a, b in c.items()], lambda: [[a, b] for a, b in m.items()], ()
            )
            self.both(what, lambda: [plain(b) for b in c.values()], lambda: list(m.values()), ())
            self.both(what, lambda: bool(c), lambda: bool(m), ())
        elif op == "eq":
            self.mon.log(what)
            o = clone(m)
            self.mon.check(c == o and not (c != o), f"{what}: config differs from its own content", "eq", config=c)
            o[g.ckey()] = "something else"
            if o != m:
                self.mon.check(c != o and not (c == o), f"{what}: config equals a different dict", "eq", config=c, other=o)
            self.mon.ev("results_agreed")
        elif op == "copy":
            self.mon.log(what)
            self.pool.append((c.copy(), clone(m)))
            if len(self.pool) > 6:
                self.pool.pop(r.randint(1, 5))
        else:
            bad = r.choice([None, (1, 2), (), object(), frozenset()])
            self.mon.log(f"dict.badkey {type(bad).__name__}")
            self.mon.check(bad not in c, "a key of an unsupported type is reported as contained", "badkey")
            for f in (lambda: c[bad], lambda: c.__setitem__(bad, 1), lambda: c.pop(bad), lambda: c.__delitem__(bad)):
                try:
                    f()
                except Exception:  # noqa: BLE001
                    self.mon.ev("errors_agreed")
                    continue
                self.mon.fail(f"a key of unsupported type {type(bad).__name__} was accepted", "badkey")

    def idx(self, m):
        return self.r.randint(-len(m) - 2, len(m) + 2)

    def slc(self, m):
        r = self.r

        def b():
            return None if r.random() < 0.3 else r.randint(-len(m) - 2, len(m) + 2)

        st = None if r.random() < 0.5 else r.choice([1, 1, 2, 3, -1, -1, -2])
        return slice(b(), b(), st)

    def list_op(self, c, m):
        r, g = self.r, self.g
        i = self.idx(m)
        op = r.choice(
            "get get slice set set sset sset del sdel append append extend extself insert insert pop popi remove index"
            " count in sort reverse clear add radd iadd iter eq copy bad getin".split()
        )
        what = f"list.{op}[{i}]"
        E = (IndexError,)
        if op == "get":
            self.both(what, lambda: c[i], lambda: m[i], E)
        elif op == "getin":
            if -len(m) <= i < len(m):
                self.both(what, lambda: c.get(i), lambda: m[i], ())
        elif op == "slice":
            s = self.slc(m)
            self.both(f"list.get[{s}]", lambda: [plain(x) for x in c[s]], lambda: m[s], ())
        elif op == "set":
            cv, mv = self.value()
            self.both(f"{what}={cv!r:.200}", lambda: c.__setitem__(i, cv), lambda: m.__setitem__(i, mv), E)
        elif op == "sset":
            s = self.slc(m)
            cv, mv = self.iterable()
            if s.step not in (None, 1) and g.chance(0.8):
                n = len(range(*s.indices(len(m))))
                mv = [g.tree(depth=1, width=2) for _ in range(n)]
                cv = clone(mv)
            if s.step == 1 or s.step is None or len(mv) == len(m[s]):
                gone = self.reach(m)
                self.pool = [(a, b) for a, b in self.pool if id(b) not in gone]
            self.both(
                f"list.set[{s}]={cv!r:.200}", lambda: c.__setitem__(s, cv), lambda: m.__setitem__(s, mv), (ValueError,)
            )
        elif op == "del":
            self.both(what, lambda: c.__delitem__(i), lambda: m.__delitem__(i), E)
        elif op == "sdel":
            s = self.slc(m)
            self.both(f"list.del[{s}]", lambda: c.__delitem__(s), lambda: m.__delitem__(s), ())
        elif op == "append":
            cv, mv = self.value()
            self.both(f"list.append({cv!r:.200})", lambda: c.append(cv), lambda: m.append(mv), ())
        elif op == "extend":
            cv, mv = self.iterable()
            self.both(f"list.extend({cv!r:.200})", lambda: c.extend(cv), lambda: m.extend(mv), ())
        elif op == "extself":
            if len(m) < 12 and sum(1 for _ in walk(m)) < 60:
                self.both("list.extend(self)", lambda: c.extend(c), lambda: m.extend(clone(m)), ())
        elif op == "insert":
            cv, mv = self.value()
            self.both(f"list.insert({i},{cv!r:.200})", lambda: c.insert(i, cv), lambda: m.insert(i, mv), ())
        elif op == "pop":
            self.both(what, lambda: c.pop(), lambda: m.pop(), E)
        elif op == "popi":
            self.both(what, lambda: c.pop(i), lambda: m.pop(i), E)
        elif op in ("remove", "index", "count", "in"):
            x = clone(r.choice(m)) if m and g.chance(0.7) else g.tree(depth=1)
            what = f"list.{op}({x!r:.200})"
            if op == "remove":
                self.both(what, lambda: c.remove(x), lambda: m.remove(x), (ValueError,))
            elif op == "index":
                if m and g.chance(0.4):
                    a = r.randint(0, len(m))
                    b = r.randint(a, len(m))
                    self.both(what + f",{a},{b}", lambda: c.index(x, a, b), lambda: m.index(x, a, b), (ValueError,))
                else:
                    self.both(what, lambda: c.index(x), lambda: m.index(x), (ValueError,))
            elif op == "count":
                self.both(what, lambda: c.count(x), lambda: m.count(x), ())
            else:
                self.both(what, lambda: x in c, lambda: x in m, ())
        elif op == "sort":
            rev = g.chance(0.5)
            kf = r.choice([None, None, str, repr, len, first, lambda x: x["a"], bool])
            try:
                sorted(m, key=kf, reverse=rev)
            except (TypeError, KeyError, IndexError):
                # the order of the items is not promised when list.sort fails, that of a config is
                self.mon.log(what)
                try:
                    c.sort(key=kf, reverse=rev)
                except Exception:  # noqa: BLE001
                    self.mon.ev("errors_agreed")
                    return
                self.mon.fail("a list that cannot be sorted is sorted", "outcome", config=c)
            self.mon.ev("sorts")
            self.both(f"list.sort({kf},{rev})", lambda: c.sort(key=kf, reverse=rev), lambda: m.sort(key=kf, reverse=rev), ())
        elif op == "reverse":
            self.both(what, lambda: c.reverse(), lambda: m.reverse(), ())
        elif op == "clear":
            if g.chance(0.3):
                self.both(what, lambda: c.clear(), lambda: m.clear(), ())
        elif op in ("add", "radd"):
            cv, mv = self.lst()
            if isinstance(cv, tuple):
                cv = list(cv)
            if op == "add":
                self.both(f"list+{cv!r:.200}", lambda: c + cv, lambda: clone(m) + mv, ())
            else:
                if isinstance(cv, ListConfig):
                    cv = plain(cv)
                self.both(f"{cv!r:.200}+list", lambda: cv + c, lambda: mv + clone(m), ())
        elif op == "iadd":
            cv, mv = self.iterable()
            self.both(f"list+={cv!r:.200}", lambda: c.__iadd__(cv), lambda: m.__iadd__(mv), ())
        elif op == "iter":
            self.both(what, lambda: [plain(x) for x in c], lambda: list(m), ())
            self.both(what, lambda: [plain(x) for x in reversed(c)], lambda: list(reversed(m)), ())
            self.both(what, lambda: bool(c), lambda: bool(m), ())
        elif op == "eq":
            self.mon.log(what)
            o = clone(m)
            self.mon.check(c == o and not (c != o), "list: config differs from its own content", "eq", config=c)
            self.mon.check(c == tuple(o), "list: config differs from a tuple of its content", "eq", config=c)
            o.insert(r.randint(0, len(o)), "something else")
            self.mon.check(c != o and not (c == o), "list: config equals a different list", "eq", config=c, other=o)
            self.mon.ev("results_agreed")
        elif op == "copy":
            self.mon.log(what)
            self.pool.append((c.copy(), clone(m)))
            if len(self.pool) > 6:
                self.pool.pop(r.randint(1, 5))
        else:
            bad = r.choice([1.5, "x", None, (0,), "0"])
            self.mon.log(f"list.badindex {bad!r}")
            for f in (lambda: c[bad], lambda: c.__setitem__(bad, 1), lambda: c.pop(bad)):
                try:
                    f()
                except Exception:  # noqa: BLE001
                    self.mon.ev("errors_agreed")
                    continue
                self.mon.fail(f"list index {bad!r} was accepted", "badindex")


def case(rng, mon, i):
    run = Run(rng, mon)
    for _ in range(rng.randint(5, 30)):
        run.step()
        run.compare(mon.trace[-1][:300])
        # bound the size
        run.pool = [(c, m) for c, m in run.pool if sum(1 for _ in walk(m)) < 200]
        if not run.pool:
            break
