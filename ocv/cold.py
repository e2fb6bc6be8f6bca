"""Child process of C25: first use of omegaconf in a process, from several threads.

Nothing here imports omegaconf at module level."""
import os
import pickle
import random
import re
import sys

ADDR = re.compile(r"0x[0-9a-fA-F]{4,}")


def text_of(f):
    try:
        r = f()
    except RecursionError:
        return "RecursionError"
    except Exception as e:
        return ADDR.sub("0x", f"{type(e).__name__}: {e}")
    return f"{type(r).__name__} {ADDR.sub('0x', repr(r))}"


def script(job):
    """One thread's work: everything about one config, in a deterministic order."""
    from omegaconf import OmegaConf

    out = []
    tree, texts, yamls = job["tree"], job["texts"], job["yamls"]
    for t in texts[:2]:
        out.append(text_of(lambda: OmegaConf.create({"a": 1, "b": [1, 2], "x": t}).x))
    cfg = OmegaConf.create(tree)
    out.append(text_of(lambda: cfg))
    for p in job["paths"]:
        out.append(text_of(lambda: OmegaConf.select(cfg, p)))
    for t in texts[2:]:
        out.append(text_of(lambda: OmegaConf.create({"a": 1, "b": [1, 2], "x": t}).x))
    out.append(text_of(lambda: OmegaConf.to_container(cfg, resolve=True)))
    out.append(text_of(lambda: OmegaConf.to_yaml(cfg)))
    for y in yamls:
        out.append(text_of(lambda: OmegaConf.to_container(OmegaConf.create(y))))
    out.append(text_of(lambda: OmegaConf.merge(cfg, {"zz": "${a}"} if isinstance(tree, dict) else tree)))
    out.append(text_of(lambda: OmegaConf.from_dotlist(job["dots"])))
    return out


def main():
    scratch, jobfile, outfile = sys.argv[1:4]
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != os.path.join(verif, "ocv")]
    sys.path.insert(0, verif)
    sys.path.insert(0, scratch)
    sys.dont_write_bytecode = True
    import warnings

    warnings.simplefilter("ignore")
    from ocv.threads import Scheduler, run

    with open(jobfile, "rb") as f:
        job = pickle.load(f)
    sched = None
    if job["mode"] != "import":
        import omegaconf

        assert omegaconf.__file__.startswith(scratch + os.sep)
    if job["mode"] == "scheduled":
        sched = Scheduler(
            random.Random(job["seed"]), len(job["jobs"]), [scratch + os.sep + "omegaconf" + os.sep], job["p"], points=job["points"]
        )
    res = run([lambda j=j: script(j) for j in job["jobs"]], sched, None if sched else job["interval"])
    import omegaconf

    assert omegaconf.__file__.startswith(scratch + os.sep)
    stats = dict(events=0, switches=0, trace="")
    if sched is not None:
        stats = dict(events=sched.events, switches=sched.switches, trace=sched.trace.hexdigest(), free=sched.free)
    with open(outfile, "wb") as f:
        pickle.dump((res, stats), f)


if __name__ == "__main__":
    main()
