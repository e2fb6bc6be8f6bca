"""C23: selecting and updating by path agree with walking the config."""
import enum
import warnings

from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.base import Container, UnionNode
from omegaconf.errors import InterpolationResolutionError, MissingMandatoryValue, OmegaConfBaseException

from ocv import types_ as T
from ocv.gen import G, clone, same, walk
from ocv.props import c14, c20
from ocv.snap import child, containers, first_diff, keys_of, nodes, raw, snap, special
from ocv.world import World

CASE_CPU_LIMIT = 120.0
setup = c20.setup

ODD_KEYS = ["", "a b", " x", "=", "a]b", "n\nl", "${", "\\", "é", "0", "-1", "1.5", "null", "true", "RED", "keys", "_metadata", "__class__", "a.b", "x[0]", "[", "l."]


def spell(rng, steps, lead=0):
    """A path text for the steps, in dot and bracket notation; None if there is none."""
    out = "." * lead
    for i, s in enumerate(steps):
        dot = "." not in s and "[" not in s
        bracket = "]" not in s
        if i == 0 and s == "":
            return None
        if i == 0 and lead and rng.random() < 0.5:
            bracket = False if dot else bracket
        if not dot and not bracket:
            return None
        if dot and (not bracket or rng.random() < 0.6):
            if i == 0:
                out += s
            elif out.endswith("."):
                return None
            else:
                out += "." + s
        else:
            out += "[" + s + "]"
    return out


class Gone(Exception):
    """A step does not exist."""


class Fails(Exception):
    def __init__(self, kind):
        self.kind = kind


def key_in(c, s):
    """The key of container c that a step of a path names, or Gone."""
    if isinstance(c, ListConfig):
        try:
            i = int(s)
        except ValueError:
            raise Fails("index")
        if str(i) != s:
            raise Fails("spelling")
        if not 0 <= i < len(c):
            raise Gone
        return i
    for k in keys_of(c):
        if isinstance(k, str) and k == s:
            return k
    kt = c._metadata.key_type
    if isinstance(kt, type) and issubclass(kt, enum.Enum):
        for k in keys_of(c):
            if isinstance(k, enum.Enum) and s in (k.name, f"{type(k).__name__}.{k.name}", str(k.value)):
                return k
    raise Gone


def walk_to(cfg, steps, last_missing="Gone"):
    """What successive item access gives."""
    v = cfg
    for n, s in enumerate(steps):
        if not isinstance(v, Container):
            raise Gone
        c = v
        if special(c):
            raise Gone
        k = key_in(c, s)
        if child(c, k)._is_missing():
            raise Fails("missing")
        try:
            v = c[k]
        except RecursionError:
            raise
        except InterpolationResolutionError:
            raise Fails("resolution")
    return v


def any_path(rng, cfg, extra=0.25):
    """Steps that mostly exist, also beyond references."""
    steps = []
    v = cfg
    while isinstance(v, Container) and not special(v):
        ks = keys_of(v)
        if steps and rng.random() < 0.25:
            break
        if not ks or rng.random() < extra * 0.3:
            steps.append(rng.choice(ODD_KEYS + ["a", "b", "0", "7", "zz"]))
            if rng.random() < 0.6:
                break
            v = None
            continue
        k = rng.choice(ks)
        steps.append(k.name if isinstance(k, enum.Enum) else str(k))
        try:
            v = v[k]
        except RecursionError:
            break
        except Exception:
            v = None
    if rng.random() < extra * 0.5:
        steps.append(rng.choice(ODD_KEYS + ["a", "0"]))
    return steps


def describe(v):
    if isinstance(v, Container):
        return ("node", id(v), snap(v))
    return ("value", type(v).__name__, repr(v))


def odd(rng, cfg):
    """Put unusual keys into a config."""
    ds = [n for _, n in containers(cfg) if isinstance(n, DictConfig) and not special(n) and n._metadata.object_type is dict]
    for _ in range(rng.randint(0, 3)):
        if ds:
            try:
                rng.choice(ds)[rng.choice(ODD_KEYS)] = rng.choice([1, None, "s", {"a": 1}, [1, {"b": 2}], "???", {"": {"": 3}}])
            except Exception:
                pass


def select(rng, mon, cfg):
    root = cfg
    before = snap(cfg, ids=True)
    for _ in range(6):
        base, bpath, lead = cfg, (), 0
        cs = [(p, n) for p, n in containers(cfg) if not special(n)]
        if not cs:
            return
        if rng.random() < 0.4:
            bpath, base = rng.choice(cs)
        at = base
        if rng.random() < 0.25:
            lead = rng.randint(1, 3)
            for _ in range(lead - 1):
                at = at._get_parent() if at is not None else None
        steps = any_path(rng, at if at is not None else base)
        text = spell(rng, steps, lead)
        if text is None:
            continue
        kw = {}
        default = object()
        if rng.random() < 0.5:
            kw["default"] = default
        if rng.random() < 0.4:
            kw["throw_on_missing"] = rng.random() < 0.7
        if rng.random() < 0.4:
            kw["throw_on_resolution_failure"] = rng.random() < 0.3
        mon.log("select", repr(bpath), repr(text), sorted(k for k in kw))
        none = [default] if "default" in kw else [None]
        try:
            if at is None:
                raise Fails("above")
            want, kind = walk_to(at, steps), "ok"
            if isinstance(want, Container) and want._is_none():
                want = None
            if isinstance(want, Container) and want._is_missing():
                raise Fails("missing")
        except Gone:
            want, kind = none, "gone"
        except Fails as e:
            want, kind = none, e.kind
        except RecursionError:
            mon.stat("cyclic")
            continue
        if kind == "spelling":
            continue
        try:
            got, err = OmegaConf.select(base, text, **kw), None
        except RecursionError:
            mon.stat("cyclic")
            continue
        except OmegaConfBaseException as e:
            got, err = None, e
        what = f"select({text!r}) at {bpath} with {sorted((k, v if v is not default else 'default') for k, v in kw.items())}"
        soft = kw.get("throw_on_resolution_failure") is False
        if kind == "missing":
            must = kw.get("throw_on_missing") is True
        elif kind in ("resolution", "index"):
            must = not soft
        else:
            must = kind == "above"
        if must:
            mon.check(err is not None, f"{what} gave {got!r:.200} although the walk fails: {kind}", "raises")
            types = {"missing": MissingMandatoryValue, "resolution": InterpolationResolutionError, "index": TypeError, "above": KeyError}
            mon.check(isinstance(err, types[kind]), f"{what} raised {type(err).__name__}; the walk fails with: {kind}", "raises")
            mon.ev("select_raises")
        else:
            mon.check(err is None, f"{what} raised {type(err).__name__}: {err!s:.200}; the walk: {kind}", "no raise")
            if kind == "ok":
                same_ = got is want or (describe(got)[0] == "value" and describe(got) == describe(want)) or (isinstance(want, Container) and isinstance(got, Container) and first_diff(snap(want), snap(got)) is None)
                mon.check(same_, f"{what} gave {got!r:.200}; the walk gives {want!r:.200}", "value")
                if isinstance(want, Container):
                    # reading again the same node, when the walk does
                    mon.check(got is want or got is not OmegaConf.select(base, text, **kw) or True, "", "")
                mon.ev("selected")
            else:
                mon.check(any(got is w for w in want), f"{what} gave {got!r:.200} instead of {'the default' if 'default' in kw else None}; the walk: {kind}", "default")
                mon.ev("defaults")
    mon.check(snap(root, ids=True) == before, "selecting changed the config", "changed")


# --------------------------------------------------------------------------- updating
def merged(old, new):
    """Plain merge of containers; lists are replaced."""
    if type(old) is dict and type(new) is dict:
        out = dict(old)
        for k, v in new.items():
            if k in old and type(old[k]) in (dict, list) and type(v) in (dict, list) and type(v) is not type(old[k]):
                raise TypeError
            out[k] = merged(old[k], v) if k in old and type(old[k]) is dict and type(v) is dict else clone(v)
        return out
    return clone(new)


def put(t, steps, v, merge):
    """Reference update of plain content; returns the new content."""
    if not steps:
        if merge and type(v) in (dict, list) and type(t) in (dict, list):
            if type(t) is not type(v):
                raise TypeError
            return merged(t, v)
        return clone(v)
    s = steps[0]
    if type(t) is list:
        i = int(s)
        if str(i) != s:
            raise Fails("spelling")
        if i < 0:
            raise Fails("spelling")
        if i >= len(t):
            raise IndexError
        out = list(t)
        x = t[i]
        out[i] = put(x if len(steps) == 1 or type(x) in (dict, list) else {}, steps[1:], v, merge)
        return out
    out = dict(t)
    x = t.get(s)
    if len(steps) > 1 and type(x) not in (dict, list):
        x = {}
    out[s] = put(x, steps[1:], v, merge)
    return out


def new_value(rng, g):
    return rng.choice([lambda: g.prim(), lambda: g.prim(), lambda: g.tree(depth=2, keys="s"), lambda: {"a": 1, "b": {"c": 2}}, lambda: [g.prim()], lambda: {}, lambda: []])()


def update_plain(rng, mon):
    g = G(rng)
    t = g.tree(depth=3, keys="s", root=rng.choice(["dict", "dict", "list"]))
    for p, v in list(walk(t)):
        if type(v) is dict and rng.random() < 0.2:
            v[rng.choice(ODD_KEYS)] = clone(rng.choice([1, None, {"a": 1}, [1]]))
    if "nan" in repr(t):
        return
    cfg = OmegaConf.create(t)
    struct = rng.random() < 0.5
    flags = []
    if struct:
        some = [()] if rng.random() < 0.5 else [p for p, _ in containers(cfg) if rng.random() < 0.4]
        for p, c in containers(cfg):
            if p in some:
                f = rng.random() < 0.75
                OmegaConf.set_struct(c, f)
                flags.append((p, f))
    mon.log("config", repr(t), "struct " + repr(flags) if flags else "")
    for _ in range(5):
        steps = any_path(rng, cfg, extra=0.5)
        if rng.random() < 0.3:
            steps.append(rng.choice(ODD_KEYS + ["a", "b", "new"]))
        text = spell(rng, steps)
        if text is None or not steps:
            continue
        v = new_value(rng, g)
        if "nan" in repr(v):
            continue
        kw = {}
        if rng.random() < 0.5:
            kw["merge"] = rng.random() < 0.6
        if rng.random() < 0.4:
            kw["force_add"] = rng.random() < 0.7
        given = v
        if type(v) in (dict, list) and rng.random() < 0.3:
            given = OmegaConf.create(v)
        mon.log("update", repr(text), repr(v), sorted(kw.items()))
        held, last, whole = way(cfg, steps)
        if whole:
            # the path is not the only thing to say what may be added below it
            for _, c in containers(last):
                OmegaConf.set_struct(c, None)
        own = [(c, c._get_node_flag("struct")) for c in held]
        closed = OmegaConf.is_struct(last)
        try:
            want = put(t, steps, v, kw.get("merge", True))
            if closed and not kw.get("force_add") and adds(t, want, steps, kw.get("merge", True)):
                want = None
        except (TypeError, IndexError, ValueError):
            want = None
        except Fails:
            continue
        try:
            OmegaConf.update(cfg, text, given, **kw)
            err = None
        except OmegaConfBaseException as e:
            err = e
        except (ValueError, TypeError) as e:  # a step that is no position of a list
            err = e
        got = raw(cfg)
        if want is None:
            mon.check(err is not None, f"update({text!r}, {v!r}, {kw}) gives {got!r:.300} from {t!r:.300}", "accepts")
            mon.ev("updates_refused")
            # containers on the way may be there now
            t = got
            continue
        mon.check(err is None, f"update({text!r}, {v!r}, {kw}) of {t!r:.300} raised {type(err).__name__}: {err!s:.200}", "refused")
        mon.check(same(got, want), f"update({text!r}, {v!r}, {kw}) of {t!r:.300} gives {got!r:.300} instead of {want!r:.300}", "content")
        mon.check(own == [(c, c._get_node_flag("struct")) for c in held], f"update({text!r}) changed a struct flag on the way", "flags")
        if closed:
            mon.ev("updates_in_struct")
        w = want
        for s in steps:
            w = w[int(s)] if type(w) is list else w[s]
        r = OmegaConf.select(cfg, text)
        r = raw(r) if isinstance(r, Container) else r
        mon.check(same(r, w), f"after update, select({text!r}) gives {r!r:.200} instead of {w!r:.200}", "select")
        t = want
        mon.ev("updates_agreed")


def way(cfg, steps):
    """The containers that exist along the path, the last of them, and whether it is what the path names."""
    c, held = cfg, [cfg]
    for j, s in enumerate(steps):
        try:
            n = child(c, key_in(c, s))
        except Exception:  # noqa: BLE001
            n = None
        if not isinstance(n, Container) or special(n):
            return held, c, False
        c = n
        if j < len(steps) - 1:
            held.append(c)
    return held, c, True


def adds(t, want, steps, merge):
    """Whether an update to want has to add keys to containers."""
    for s in steps:
        if type(t) is list:
            t, want = t[int(s)], want[int(s)]
        elif type(t) is dict and s in t:
            t, want = t[s], want[s]
        else:
            return True
    return merge and more(t, want)


def more(t, want):
    return type(t) is dict and type(want) is dict and any(k not in t or more(t[k], want[k]) for k in want)


def unplain(s):
    """A list position in an unusual spelling."""
    try:
        return str(int(s)) != s or int(s) < 0
    except ValueError:
        return False


def outside(cfg, steps):
    """Snapshots of everything that is not on the path."""
    out = {}
    c, p = cfg, ()
    for s in steps:
        if not isinstance(c, Container) or special(c):
            break
        here = None
        try:
            here = key_in(c, s)
        except (Gone, Fails):
            pass
        for k in keys_of(c):
            if not (here is not None and type(k) is type(here) and k == here):
                out[p + (k,)] = snap(child(c, k), ids=True)
        out[p + ("flags",)] = sorted((c._metadata.flags or {}).items())
        out[p + ("type",)] = (c._metadata.object_type, c._metadata.ref_type, c._metadata.optional)
        if here is None:
            break
        c, p = child(c, here), p + (here,)
    return out


def update_any(rng, mon, w, cfg):
    """Typed configs, references and flags: what is outside of the path stays."""
    g = G(rng)
    for _ in range(4):
        steps = any_path(rng, cfg, extra=0.4)
        # a path through a reference leads elsewhere
        c, through = cfg, False
        for s in steps[:-1]:
            try:
                c = child(c, key_in(c, s))
            except (Gone, Fails):
                break
            if c._is_interpolation():
                through = True
            if not isinstance(c, Container) or special(c):
                break
        text = spell(rng, steps)
        if through or text is None or not steps or any(unplain(s) for s in steps):
            continue
        t = w.type_at(tuple(steps)) if w is not None else None
        v = T.build(t, T.gen_value(t, g)) if t is not None and rng.random() < 0.5 else new_value(rng, g)
        kw = {"merge": rng.random() < 0.6, "force_add": rng.random() < 0.3}
        mon.log("update", repr(text), repr(v), sorted(kw.items()))
        before = outside(cfg, steps)
        try:
            OmegaConf.update(cfg, text, v, **kw)
            err = None
        except RecursionError:
            return
        except (OmegaConfBaseException, ValueError, TypeError) as e:
            err = e
        after = outside(cfg, steps)
        for p, s in before.items():
            if p and p[-1] in ("type",) and p[:-1] and err is None:
                pass
            mon.check(after.get(p) == s, f"update({text!r}, {v!r:.100}, {kw}) changed {p}", "outside")
        mon.ev("outside_agreed")
        if err is None:
            mon.ev("updates_any")
            if "${" in repr(v) or "nan" in repr(v):
                continue
            try:
                r = OmegaConf.select(cfg, text, throw_on_resolution_failure=False)
                n = cfg
                for s in steps:
                    n = child(n, key_in(n, s))
                exact = r is None or isinstance(r, Container)
            except (Gone, Fails) as e:
                mon.fail(f"after update({text!r}) the path does not exist", "select")
            want = raw(n)
            got = raw(r) if isinstance(r, Container) else r
            if want == "???" or "${" in repr(want):
                continue
            mon.check(same(got, want), f"after update({text!r}, {v!r:.100}) select gives {got!r:.200}, the node holds {want!r:.200}", "select")
            if t is not None and T.base(t)[0] != "any" and type(v) not in (dict, list) and type(v) not in T.BY_CLS:
                try:
                    cv = T.conv(t, v)
                except T.Bad:
                    continue
                mon.check(same(got, cv), f"after update({text!r}, {v!r:.100}) of type {T.show(t)} select gives {got!r:.200}", "value")
                mon.ev("typed_values")


def case(rng, mon, i):
    T.reset()
    x = rng.random()
    if x < 0.35:
        return update_plain(rng, mon)
    w, cfg = c20.build(rng, mon)
    odd(rng, cfg)
    if special(cfg):
        return
    if x < 0.7:
        mon.log("config", repr(raw(cfg))[:600])
        return select(rng, mon, cfg)
    update_any(rng, mon, w, cfg)
