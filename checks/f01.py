"""Coverage counts equal the history of sampled values."""

from lib import cspec
from lib.common import quiet
from lib.runner import Part

ID = "F01"
RULE = (
    "A case is a history of adds (all condition kinds, lists of conditions, callables, single "
    "conditions, named or not), value changes, samples, resets, deletions, clears, stops, resumes and "
    "invalid calls on one or two groups; after every operation all counts, totals, verdicts and names "
    "are compared with a reference. Non-trivial: at some time one bin had been hit in several samples and not all bins equally often."
)
ASSUMPTIONS = [
    "Every bin has at least one condition kind documented, compared values are comparable.",
    "Bins are not changed behind the group's back.",
]


def run(p):
    quiet()
    r = cspec.Run(p)
    rich = False
    for i, op in enumerate(p["ops"]):
        r.step(op)
        r.compare(f"after step {i} {op[0]}")
        counts = [n for ref in r.refs for x in ref.points.values() for n in x["hits"].values()]
        rich |= max(counts, default=0) > 1 and len(set(counts)) > 1
    return rich, r.tags


PARTS = [Part("counts", cspec.plan, run, 3000)]
