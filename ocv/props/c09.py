"""C09: keys of typed dicts are validated and canonical on every path."""
import copy
import enum
import pickle

from omegaconf import DictConfig, OmegaConf
from omegaconf.errors import OmegaConfBaseException

from ocv import types_ as T
from ocv.gen import Color, G, Shape, same
from ocv.snap import raw

REJECT = (OmegaConfBaseException, ValueError, KeyError, AttributeError, TypeError)
D = object()


class Small(enum.IntEnum):
    one = 1
    two = 2


class Word(str, enum.Enum):
    x = "ex"
    RED = "RED"


KEYS = [
    "RED", "Color.RED", "GREEN", "BLUE", "red", "Size.RED", "Color.Color.RED", ".RED", "A", "ROUND", "Shape.A", "true",
    "null", "", "1", "0", "1.0", "True", "a", "b", "foo", "a.b", "one", "Small.one", 0, 1, 2, 3, -1, 10, 10**20, 0.0, 1.0,
    0.5, -2.25, 2.0, float("inf"), True, False, b"a", b"", b"RED", b"1", Color.RED, Color.GREEN, Color.BLUE, Shape.ROUND,
    Shape.A, Shape.true, Small.one, Small.two, None, (), (1,), [1], {"a": 1}, object(), "x", "ex", "Word.x",
]  # fmt: skip


def gen_keytype(rng):
    return rng.choice(
        [("str",), ("int",), ("float",), ("bool",), ("bytes",), ("any",)] + [("enum", e) for e in (Color, Color, Shape, Small, Word)]
    )  # fmt: skip


def canon(kt, k):
    """Canonical key, or T.Bad."""
    try:
        hash(k)
    except TypeError:
        raise T.Bad(k)
    if kt[0] == "enum":
        e = kt[1]
        if isinstance(k, e):
            return k
        if type(k) is bool or isinstance(k, float) or not isinstance(k, (str, int)):
            raise T.Bad(k)
        if isinstance(k, int):
            for m in e:
                if m.value == k:
                    return m
            raise T.Bad(k)
        if k.startswith(e.__name__ + "."):
            k = k[len(e.__name__) + 1 :]
        if k in e.__members__:
            return e.__members__[k]
        raise T.Bad(k)
    if kt[0] == "bool" and isinstance(k, (int, float)) and k in (0, 1):
        return bool(k)
    return T.conv_key(kt, k)


def aliases(kt, k):
    out = [k]
    if kt[0] == "enum":
        out += [k.name, f"{kt[1].__name__}.{k.name}"]
        if type(k.value) is int:
            out.append(k.value)
    elif kt[0] == "bool":
        out += [int(k), float(k)]
    return out


def key_in(kt, rng, model):
    x = rng.random()
    if x < 0.3 and model:
        return rng.choice(aliases(kt, rng.choice(list(model))))
    if x < 0.6:
        return T.gen_key(kt, G(rng)) if kt[0] != "enum" else rng.choice(aliases(kt, rng.choice(list(kt[1]))))
    return rng.choice(KEYS)


def build_dict(rng, kt, items):
    """Every way to create the dict from (key, value) pairs; returns (name, container, root)."""
    kth = T.hint(kt)
    how = rng.choice(["constructor", "field", "field_assign", "create_then_merge", "nested_field", "elements"])
    d = dict(items)
    t = ("dict", kt, ("int",))
    g = G(rng)
    if how == "constructor":
        c = DictConfig(d, key_type=kth, element_type=int)
        return how, c, c
    if how == "field":
        sc = T.make_sc(g, [("f", t, d)])
        c = OmegaConf.structured(sc.cls)
        return how, c.f, c
    if how == "field_assign":
        sc = T.make_sc(g, [("f", t, {})])
        c = OmegaConf.structured(sc.cls)
        c.f = d
        return how, c.f, c
    if how == "create_then_merge":
        sc = T.make_sc(g, [("f", t, {})])
        c = OmegaConf.merge(OmegaConf.structured(sc.cls), {"f": d})
        return how, c.f, c
    if how == "nested_field":
        sc = T.make_sc(g, [("f", ("dict", ("str",), t), {"n": d})])
        c = OmegaConf.structured(sc.cls)
        return how, c.f.n, c
    sc = T.make_sc(g, [("f", ("list", t), [])])
    c = OmegaConf.structured(sc.cls)
    c.f.append(d)
    return how, c.f[0], c


def typed_eq(a, b):
    return type(a) is type(b) and a == b


def check_state(mon, kt, c, model, what):
    mon.check(
        [*map(repr, c.keys())] == [*map(repr, model)] and all(typed_eq(a, b) for a, b in zip(c.keys(), model)),
        f"after {what}: keys {list(c.keys())!r}, expected {list(model)!r}", "keys",
    )  # fmt: skip
    mon.check(same(raw(c), model), f"after {what}: content {raw(c)!r}, expected {model!r}", "content")
    if kt[0] != "any":
        py = kt[1] if kt[0] == "enum" else T.PY[kt[0]]
        mon.check(all(isinstance(k, py) for k in c.keys()), f"after {what}: a key is not of the declared type", "type")
    mon.ev("states_compared")


def reads(mon, kt, c, k, model, rng):
    """Every way of reading the key k."""
    try:
        ck = canon(kt, k)
        bad = False
    except T.Bad:
        ck, bad = None, True
    present = not bad and ck in model
    want = model[ck] if present else D
    mon.log("read", repr(k), "->", repr(want) if present else ("bad" if bad else "absent"))

    def go(name, f, default=False):
        try:
            got, exc = f(), None
        except REJECT as e:
            got, exc = D, e
        if present:
            mon.check(exc is None, f"{name} with key {k!r} fails though {ck!r} is in {model!r}: {str(exc)[:120]}", "lookup")
            mon.check(same(got, want), f"{name} with key {k!r} gives {got!r}, expected {want!r}", "lookup")
        elif default:
            mon.check(exc is not None or got is D, f"{name} with key {k!r} gives {got!r}, keys are {list(model)!r}", "lookup")
            if not bad:
                mon.check(exc is None, f"{name} with the absent key {k!r} raises {exc!r:.150}", "lookup")
        else:
            mon.check(exc is not None, f"{name} with key {k!r} gives {got!r}, keys are {list(model)!r}", "lookup")
        mon.ev("lookups_agreed")

    try:
        got = k in c
    except TypeError:
        got = False
    mon.check(got is present, f"{k!r} in config is {got}, keys are {list(model)!r}", "contains")
    go("item", lambda: c[k])
    go("get with default", lambda: c.get(k, D), True)
    if present:
        go("get", lambda: c.get(k))
        mon.check(OmegaConf.is_missing(c, k) is False, f"is_missing({k!r})", "lookup")
        mon.check(OmegaConf.is_interpolation(c, k) is False, f"is_interpolation({k!r})", "lookup")
    if type(k) is str and k.isidentifier():
        go("attribute", lambda: getattr(c, k))
        if kt[0] in ("str", "enum", "any"):
            go("select", lambda: OmegaConf.select(c, k, default=D), True)
    c2 = copy.deepcopy(c)
    go("pop with default", lambda: c2.pop(k, D), True)
    if not bad:
        m2 = {x: v for x, v in model.items() if x != ck}
        check_state(mon, kt, c2, m2, f"pop {k!r}")
    c3 = copy.deepcopy(c)
    go("pop", lambda: c3.pop(k))


def write(mon, kt, root, c, k, v, model, rng):
    """One write of one key; returns the container afterwards."""
    try:
        ck = canon(kt, k)
        bad = False
    except T.Bad:
        ck, bad = None, True
    try:
        hash(k)
        hashable = True
    except TypeError:
        hashable = False
    ops = ["item", "setdefault"]
    if hashable:
        ops += ["update", "update_pairs", "merge_with", "merge", "merge_config", "merge_node"]
    if type(k) is str and k.isidentifier():
        ops += ["setattr", "kwargs"]
        if not hasattr(DictConfig, k) and kt[0] in ("str", "enum"):
            ops += ["om_update", "dotlist"]
    op = rng.choice(ops)
    mon.log(op, repr(k), repr(v), "bad" if bad else "ok")
    c2 = copy.deepcopy(c)
    new = c2
    try:
        if op == "item":
            c2[k] = v
        elif op == "setdefault":
            r = c2.setdefault(k, v)
            if not bad:
                mon.check(r == model.get(ck, v), f"setdefault({k!r}) gives {r!r}", "setdefault")
        elif op == "update":
            c2.update({k: v})
        elif op == "update_pairs":
            c2.update([(k, v)])
        elif op == "kwargs":
            c2.update(**{k: v})
        elif op == "setattr":
            setattr(c2, k, v)
        elif op == "merge_with":
            c2.merge_with({k: v})
        elif op == "merge":
            new = OmegaConf.merge(c2, {k: v})
        elif op == "merge_config":
            new = OmegaConf.merge(c2, OmegaConf.create({k: v}))
        elif op == "merge_node":
            src = DictConfig({k: v}, element_type=int)
            new = OmegaConf.merge(c2, src)
        elif op == "om_update":
            OmegaConf.update(c2, k, v)
        else:
            c2.merge_with_dotlist([f"{k}={v}"])
        exc = None
    except REJECT as e:
        exc = e
    if bad:
        mon.check(exc is not None, f"{op}: key {k!r} is accepted as {T.show(kt)}: {list(new.keys())!r}", "accepted")
        check_state(mon, kt, c2, model, f"rejected {op} {k!r}")
        mon.ev("rejections_agreed")
        return c
    mon.check(exc is None, f"{op}: key {k!r} is rejected as {T.show(kt)}: {str(exc)[:200]}", "rejected")
    if op == "setdefault" and ck in model:
        pass
    else:
        model[ck] = v  # the first spelling of an equal key stays, as in any dict
    check_state(mon, kt, new, model, f"{op} {k!r}")
    mon.ev("acceptances_agreed")
    return new


def delete(mon, kt, c, k, model, rng):
    try:
        ck = canon(kt, k)
        present = ck in model
    except T.Bad:
        present = False
    c2 = copy.deepcopy(c)
    op = "delattr" if type(k) is str and k.isidentifier() and rng.random() < 0.4 else "del"
    try:
        if op == "del":
            del c2[k]
        else:
            delattr(c2, k)
        exc = None
    except REJECT as e:
        exc = e
    mon.log(op, repr(k), repr(exc)[:60])
    if present:
        mon.check(exc is None, f"{op} of {k!r} fails, keys are {list(model)!r}: {str(exc)[:150]}", "delete")
        del model[ck]
        c = c2
    else:
        mon.check(exc is not None, f"{op} of {k!r} succeeds, keys are {list(model)!r}", "delete")
    check_state(mon, kt, c2, model, f"{op} {k!r}")
    return c


def creation(mon, rng):
    """Creating from content with one bad key fails, with good keys gives the canonical dict."""
    kt = gen_keytype(rng)
    items, model, bad = [], {}, False
    for n in range(rng.randint(0, 4)):
        k = key_in(kt, rng, model) if rng.random() < 0.5 else rng.choice(aliases(kt, T.gen_key(kt, G(rng))))
        try:
            hash(k)
        except TypeError:
            continue
        items.append((k, n))
    for k, n in dict(items).items():
        try:
            model[canon(kt, k)] = n
        except T.Bad:
            bad = True
    # 0/False and 1/True are one key of a plain dict already
    try:
        how, c, root = build_dict(rng, kt, items)
        exc = None
    except REJECT as e:
        how, exc = "?", e
    mon.log("create", how, T.show(kt), repr(items), repr(exc)[:80])
    if bad:
        mon.check(exc is not None, f"{how}: {dict(items)!r} is accepted as Dict[{T.show(kt)}, int]", "accepted")
        mon.ev("rejections_agreed")
        return None
    mon.check(exc is None, f"creation: {dict(items)!r} is rejected as Dict[{T.show(kt)}, int]: {str(exc)[:200]}", "rejected")
    check_state(mon, kt, c, model, f"creation by {how}")
    mon.ev("acceptances_agreed")
    return kt, c, root, model, how


def copies(mon, kt, c, model, rng):
    how = rng.choice(["copy", "deepcopy", "pickle", "merge", "create"])
    if how == "pickle":
        c = pickle.loads(pickle.dumps(c))
    elif how == "merge":
        c = OmegaConf.merge(c)
    elif how == "create":
        c = OmegaConf.create(c)
    else:
        c = getattr(copy, how)(c)
    check_state(mon, kt, c, model, how)
    return c


def transfer(mon, rng):
    """Typed dicts meeting: merging or assigning a dict with one key type into another."""
    a, b = creation(mon, rng), creation(mon, rng)
    if not a or not b:
        return
    (kt, c, root, model, how1), (kt2, c2, _, model2, how2) = a, b
    if how1 == "constructor" != how2:
        # an untyped reference takes over the declared type of the source, if its keys allow it
        try:
            c.merge_with(c2)
        except REJECT:
            pass
        keys = list(c.keys())
        mon.check(set(keys) >= set(model), f"merge of {T.show(kt2)} keys loses keys: {keys!r} from {model!r}", "keys")
        for k in keys:
            mon.check(k in c, f"merge of {T.show(kt2)} keys {list(model2)!r} makes the key {k!r} of {keys!r} unreadable", "type")
        mon.ev("promotions_checked")
        return
    want, bad = dict(model), False
    for k, v in model2.items():
        try:
            want[canon(kt, k)] = v
        except T.Bad:
            bad = True
    how = rng.choice(["merge", "merge_with", "update", "assign"])
    mon.log("transfer", how, T.show(kt2), "->", T.show(kt))
    c = copy.deepcopy(c)
    try:
        if how == "merge":
            c = OmegaConf.merge(c, c2)
        elif how == "merge_with":
            c.merge_with(c2)
        elif how == "update":
            c.update(c2)
        else:
            sc = T.make_sc(G(rng), [("f", ("dict", kt, ("int",)), {})])
            x = OmegaConf.structured(sc.cls)
            x.f = c2
            c = x.f
            want = {}
            bad = False
            for k, v in model2.items():
                try:
                    want[canon(kt, k)] = v
                except T.Bad:
                    bad = True
        exc = None
    except REJECT as e:
        exc = e
    if bad:
        mon.check(exc is not None, f"{how}: {model2!r} into {T.show(kt)} keys is accepted: {list(c.keys())!r}", "accepted")
        if kt[0] != "any":
            py = kt[1] if kt[0] == "enum" else T.PY[kt[0]]
            mon.check(all(isinstance(k, py) for k in c.keys()), f"{how}: keys {list(c.keys())!r}", "type")
        mon.ev("rejections_agreed")
    else:
        mon.check(exc is None, f"{how}: {model2!r} into {T.show(kt)} keys is rejected: {str(exc)[:200]}", "rejected")
        check_state(mon, kt, c, want, how)
        mon.ev("acceptances_agreed")


def case(rng, mon, i):
    if rng.random() < 0.3:
        for _ in range(3):
            transfer(mon, rng)
        return
    r = creation(mon, rng)
    if r is None:
        return
    kt, c, root, model, _ = r
    for _ in range(rng.randint(3, 10)):
        x = rng.random()
        k = key_in(kt, rng, model)
        if x < 0.35:
            before = dict(model)
            reads(mon, kt, c, k, model, rng)
            check_state(mon, kt, c, before, f"reading {k!r}")
        elif x < 0.8:
            c = write(mon, kt, root, c, k, rng.randint(0, 99), model, rng)
        elif x < 0.92:
            c = delete(mon, kt, c, k, model, rng)
        else:
            c = copies(mon, kt, c, model, rng)
