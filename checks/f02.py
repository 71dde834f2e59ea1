"""Sampling stops and resumes exactly as configured."""

from lib import cspec
from lib.common import quiet
from lib.runner import Part

ID = "F02"
RULE = (
    "A case is a history as in F01; the number of evaluations of every callable bin, the call and sample "
    "counters and the stopped state are compared with a reference after every operation. Non-trivial: "
    "a sample was requested while the group was stopped (by stop_sample or by itself)."
)
ASSUMPTIONS = [
    "Whether a sample in which nothing is left to evaluate is counted as a sample is not specified "
    "(after resume_sample or a deletion), nor is the empty group.",
]


def run(p):
    quiet()
    r = cspec.Run(p)
    idle = False
    for i, op in enumerate(p["ops"]):
        if op[0] == "sample":
            ref = r.refs[op[1]]
            idle |= ref.stop or bool(
                ref.points and all(ref.covered(x) and x["once"] for x in ref.points.values())
            )
        r.step(op)
        r.compare_evals(f"after step {i} {op[0]}")
        r.compare(f"after step {i} {op[0]}")
    return idle, r.tags


PARTS = [Part("stopping", cspec.plan, run, 3000)]
