"""Rewrites the "fixed" list of known_findings.json from the fix: commits of /repo.

Run by hand after a fix; PROPS says which property each commit repairs."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = json.load(open(os.path.join(HERE, "tools", "fixed_props.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out, unknown = [], []
for line in log.splitlines():
    h, msg = line.split(" ", 1)
    if not msg.startswith("fix: "):
        continue
    msg = msg[5:]
    ps = [p for k, p in PROPS.items() if k in msg]
    if not ps:
        unknown.append(line)
    for p in ps[0].split() if ps else []:
        out.append(f"fixed: property={p} {h} {msg} (was not the case)")
for u in unknown:
    print("UNMAPPED", u)
f = os.path.join(HERE, "known_findings.json")
d = json.load(open(f))
d["fixed"] = out
json.dump(d, open(f, "w"), indent=1, ensure_ascii=False)
open(f, "a").write("\n")
print(len(out), "entries")
