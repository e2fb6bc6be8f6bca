"""Child process: runs a range of cases of one property against the scratch copy."""
import argparse
import faulthandler
import importlib
import json
import os
import resource
import sys
import warnings


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--seed", type=int, required=True)
    ap.add_argument("--worker", type=int, required=True)
    ap.add_argument("--start", type=int, required=True)
    ap.add_argument("--count", type=int, required=True)
    ap.add_argument("--scratch", required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--known", default="")
    ap.add_argument("--out", required=True)
    a = ap.parse_args()
    faulthandler.enable()
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != os.path.join(verif, "ocv")]
    sys.path.insert(0, verif)
    sys.path.insert(0, a.scratch)
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    import omegaconf

    assert os.path.abspath(omegaconf.__file__).startswith(
        os.path.abspath(a.scratch) + os.sep
    ), omegaconf.__file__
    from ocv import core

    mod = importlib.import_module(f"ocv.props.{a.prop.lower()}")
    mod.TIER = a.tier
    mod.SCRATCH = a.scratch
    known = set(x for x in a.known.split(",") if x)
    mon = core.Mon()
    viols, seen_known = [], {}
    done = 0
    if hasattr(mod, "setup"):
        mod.setup(a.scratch)
    # process entries scheduled only once per run are the first worker's
    for i in range(a.start, a.start + a.count):
        types_ = sys.modules.get("ocv.types_")
        if types_ is not None:
            types_.reset()
        v = core.run_case(mod, mon, a.prop, a.seed, a.worker, i)
        done += 1
        if v is None:
            continue
        if v["mech"] in known:
            seen_known.setdefault(v["mech"], v["msg"])
            mon.stat("known_finding")
            continue
        viols.append(v)
        if len(viols) >= 3:
            break
    if hasattr(mod, "finish"):
        mod.finish(mon)
    with open(a.out, "w") as f:
        json.dump(
            dict(
                done=done,
                counters=mon.counters,
                sigs=sorted(mon.sigs),
                samples=mon.samples,
                violations=viols,
                known=seen_known,
            ),
            f,
        )


if __name__ == "__main__":
    main()
