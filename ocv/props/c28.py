"""C28: looking at a config never changes it."""
import warnings

from omegaconf import OmegaConf
from omegaconf.base import Container

from ocv.core import Skip
from ocv.props import c14, c20
from ocv import reads
from ocv.reads import FLAGS, Reads, attempt
from ocv.snap import first_diff, nodes, snap, wellformed

CASE_CPU_LIMIT = 120.0


def setup(scratch):
    c20.setup(scratch)
    OmegaConf.clear_resolver("ocv_cached")  # what it returns is shared by design


def state(cfg):
    """Everything a read may not touch, with the identity of every part."""
    out = []
    for path, parent, n in nodes(cfg):
        md = n._metadata
        row = [path, id(n), id(n._get_parent()) if n._get_parent() is not None else None, repr(md.flags), id(n.__dict__.get("_content", n.__dict__.get("_val")))]
        row.append(sorted(k for k in n.__dict__))
        out.append(tuple(row))
    return tuple(out)


def case(rng, mon, i):
    from ocv.core import Mon

    w, cfg = c20.build(rng, mon)
    if not isinstance(cfg, Container):
        raise Skip()
    if rng.random() < 0.5:
        # caches of effective flags may be filled or not
        for _, _, n in nodes(cfg):
            n._get_flag(rng.choice(FLAGS))
    s0, st0 = snap(cfg, ids=True), state(cfg)
    rd = Reads(rng, cfg)
    first = []
    reads.CHANGED.clear()
    for j in range(rng.randint(8, 30)):
        label, f = rd.draw()
        mon.log(label)
        out = attempt(lambda: f(cfg))
        if out[0] == "RecursionError":
            mon.stat("recursion")
        s = snap(cfg, ids=True)
        if s != s0:
            mon.fail(f"{label} ({out[0]}) changed the config: {first_diff(s0, s)}", "content")
        st = state(cfg)
        if st != st0:
            d = [(a, b) for a, b in zip(st0, st) if a != b]
            mon.fail(f"{label} ({out[0]}) changed the inside of the config: {d[:2]!r:.600}", "state")
        mon.check(not reads.CHANGED, f"{label} changed its argument (before, after): {reads.CHANGED}", "argument")
        mon.ev("reads_without_effect" if out[0] == "ok" else "failing_reads_without_effect")
        first.append((label, f, out))
    # every read gives again what it gave before the others
    order = list(range(len(first)))
    rng.shuffle(order)
    for j in order[:12]:
        label, f, out = first[j]
        again = attempt(lambda: f(cfg))
        if "RecursionError" in (out[0], again[0]):
            continue
        mon.check(again == out, f"{label} gave {out!r:.400}, later {again!r:.400}", "again")
        mon.ev("reads_repeated")
    wellformed(cfg, mon, "after reads")
    mon.check(snap(cfg, ids=True) == s0 and state(cfg) == st0, "repeated reads changed the config", "content")
