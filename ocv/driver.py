"""Parent process of a check: builds the scratch copy, fans cases out, decides the verdict."""
import argparse
import collections
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from . import build
from .meta import META

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, "evidence")
NPROC = 8


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        d = json.load(f)
    return {k["mechanism"]: k for k in d["findings"] if k["property"] == prop}


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int, help="override the number of cases (per worker)")
    ap.add_argument("--workers", type=int, default=NPROC)
    a = ap.parse_args(argv)
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    m = META[prop]
    t0 = time.time()
    known = load_known(prop)
    try:
        scratch = build.make_scratch()
    except (build.BuildError, subprocess.TimeoutExpired) as e:
        print(f"ERROR property={prop} build: {e}")
        return 3
    out = tempfile.mkdtemp(prefix="ocv-out-")
    procs = []
    try:
        env = dict(os.environ)
        env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8")
        for k in ("PYTHONPATH", "OC_CAUSE"):
            env.pop(k, None)
        jobs = []
        if a.replay:
            with open(a.replay) as f:
                r = json.load(f)
            seed = r["seed"]
            jobs.append((r["worker"], r["case"], 1))
        else:
            n = a.cases or m[tier]
            for w in range(a.workers):
                jobs.append((w, 0, n))
        for w, start, count in jobs:
            o = os.path.join(out, f"w{w}.json")
            log = open(os.path.join(out, f"w{w}.log"), "wb")
            cmd = [
                build.PY, "-B", os.path.join(VERIF, "ocv", "worker.py"),
                "--prop", prop, "--seed", str(seed), "--worker", str(w),
                "--start", str(start), "--count", str(count), "--scratch", scratch,
                "--tier", tier, "--out", o, "--known", ",".join(known),
            ]  # fmt: skip
            home = os.path.join(out, f"home{w}")
            os.mkdir(home)
            wenv = dict(env, HOME=home, TMPDIR=home)
            p = subprocess.Popen(cmd, cwd=home, env=wenv, stdout=log, stderr=subprocess.STDOUT)
            procs.append((w, p, o, log))
        cap = 840 if tier == "quick" else 6 * 3600
        problems = []
        for w, p, o, log in procs:
            try:
                p.wait(timeout=max(1, cap - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                problems.append(f"worker {w} hit the watchdog after {cap} s")
        res = []
        for w, p, o, log in procs:
            log.close()
            if os.path.exists(o):
                with open(o) as f:
                    res.append(json.load(f))
            elif not any(f"worker {w} " in x for x in problems):
                with open(log.name, errors="replace") as f:
                    tail = f.read()[-3000:]
                problems.append(f"worker {w} ended with {p.returncode}:\n{tail}")
        counters = collections.Counter()
        sigs, samples, viols, seen_known = set(), [], [], {}
        done = 0
        for r in res:
            counters.update(r["counters"])
            sigs.update(r["sigs"])
            samples.extend(r["samples"])
            viols.extend(r["violations"])
            seen_known.update(r["known"])
            done += r["done"]
        wall = time.time() - t0
        os.makedirs(EVIDENCE, exist_ok=True)
        if not a.replay:
            samples.sort(key=len)
            ev = dict(
                property=prop,
                tier=tier,
                seed=seed,
                level="exploration",
                coverage=dict(
                    evaluations=done,
                    distinct_nontrivial=len(sigs),
                    rule=m["rule"],
                    samples=samples[:3],
                    observed=dict(sorted(counters.items())),
                    workers=len(jobs),
                ),
                assumptions=m.get("assumptions", []),
                wall_s=round(wall, 2),
                violations=len(viols),
            )
            tmp = os.path.join(EVIDENCE, f".{prop}.json.tmp")
            with open(tmp, "w") as f:
                json.dump(ev, f, indent=1)
            os.replace(tmp, os.path.join(EVIDENCE, f"{prop}.json"))
        for mech, k in known.items():
            if mech in seen_known:
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
        if viols:
            viols.sort(key=lambda v: (len(v["trace"]), v["case"]))
            v = viols[0]
            path = a.replay or os.path.join(EVIDENCE, f"replay-{prop}-{seed}-{v['worker']}-{v['case']}.json")
            if not a.replay:
                with open(path, "w") as f:
                    json.dump(v, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {v['msg']}")
            for k, x in (v["detail"] or {}).items():
                print(f"  {k}: {x}")
            print("  history (last events):")
            for t in v["trace"][-25:]:
                print(f"    {t}")
            print("  " + v["tb"].replace("\n", "\n  "))
            return 1
        if problems:
            for x in problems:
                print(f"INCONCLUSIVE property={prop} {x}")
            return 3
        if not a.replay:
            missing = [k for k in known if k not in seen_known]
            if missing:
                print(f"note: known finding(s) no longer observed: {missing}")
            scale = (a.cases or m[tier]) / m["quick"] * len(jobs) / NPROC
            for k, least in m.get("required", {}).items():
                if counters[k] < min(least, least * scale):
                    print(f"INCONCLUSIVE property={prop} monitor '{k}' saw {counters[k]} events, needs {least}")
                    return 2
        print(
            f"HELD property={prop} tier={tier} seed={seed} cases={done} "
            f"distinct={len(sigs)} wall={wall:.1f}s"
        )
        print("  observed: " + ", ".join(f"{k}={v}" for k, v in sorted(counters.items())))
        return 0
    finally:
        for _, p, _, _ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
