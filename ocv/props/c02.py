"""C02: a single mutation that raises leaves the whole config as it was."""
from ocv.snap import first_diff, raw, snap
from ocv.world import World


def case(rng, mon, i):
    w = World(rng, mon, flags=rng.choice([0, 0, 0.1, 0.3]))
    for _ in range(rng.randint(4, 16)):
        before = snap(w.cfg)
        d, f = w.single()
        mon.log(d)
        try:
            f()
        except RecursionError:
            raise
        except Exception as e:  # noqa: BLE001
            mon.log(f"  raised {type(e).__name__}")
            after = snap(w.cfg)
            diff = first_diff(before, after)
            if diff:
                mon.fail(
                    f"the failed operation '{d}' ({type(e).__name__}) changed the config: {diff}", "changed",
                    config=raw(w.cfg), error=str(e),
                )  # fmt: skip
            mon.ev("failed_ops_checked")
            mon.stat("raised:" + type(e).__name__)
        else:
            mon.stat("ops_succeeded")
