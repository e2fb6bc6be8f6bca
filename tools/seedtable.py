"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## 5. Planted bugs"
FIRST_MISSED = "c14-equal-conversion c21-enum-list c28-masked-copy-sort c24-eq-in-key c25-shared-memo c24-strip c15-tree-cache c17-cache-quotes c27-eager-full-key c26-default-none-hint c23-force-add-root c29-env-falsy-default c29-select-falsy c29-create-relative c07-bool-strip c26-attr-alias c17-args-parts c08-path-strict c27-override-msg c13-pop-keeps-missing c07-path-norm c14-memo-key c03-nodeepcopy-parent".split()
MORE = os.path.join(HERE, "seeded", "missed_first.txt")
if os.path.exists(MORE):
    FIRST_MISSED += open(MORE).read().split()

rows = []
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    n = f.split(os.sep)[-2]
    m = json.load(open(f))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {'after strengthening' if n in FIRST_MISSED else 'yes'} |")
text = open(os.path.join(HERE, "DESIGN.md")).read().split(MARK)[0].rstrip()
text += f"""

{MARK}

Each lives in `seeded/<id>/` and is caught by the quick check of the property named, with the
default seed. "after strengthening" marks those the checks missed at first: typed reads through
interpolations (C14), enums that are also str or int (C21), argument snapshots (C28), scalars in
plain style (C24), threads meeting in one node (C25), changes of cached results (C04), one text parsed in several roles (C15),
nearly equal cached arguments (C17), struct flags on the way of an update (C23), immutable sequence defaults (C26)
and paths that go on below a value (C27) were added for them.
Besides these, about 5000 single-site mutants of the package (comparison, condition, statement,
argument and copy deletions) were generated; those that survive the tests were run against all checks and
the uncaught ones read by hand. Nearly all are equivalent; what was not led to nearly valid values in
typed containers (a failed assignment to a typed list lost the node's own flags; C02) and other additions.

| planted bug | property | needs | caught |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(os.path.join(HERE, "DESIGN.md"), "w").write(text)
