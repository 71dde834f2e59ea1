"""Executor results belong to their calls."""

from lib import xspec
from lib.common import check, quiet, same
from lib.runner import Part

ID = "E02"
RULE = (
    "A case is a generated sequence of Executor blocks as in E01 whose calls return generated values; "
    "get_results() after exit=all or wait_all must map every group to its value (one call) or to the "
    "values in call order. Non-trivial: several groups, one of them with several calls."
)
ASSUMPTIONS = ["A block with exit=any has at least one group.", "No call raises (see A04)."]


def run(p):
    quiet()
    seen, fore = xspec.execute(p)
    for key, got in seen["results"].items():
        want = fore.results[key]
        same(sorted(got), sorted(want), f"groups with a result in {key}")
        for name in want:
            check(
                repr(got[name]) == repr(want[name]) and type(got[name]) is type(want[name]),
                "result of group %s in %s: got %r, expected %r",
                name,
                key,
                got[name],
                want[name],
            )
    groups, tags = xspec.stats(p)
    return groups >= 2 and "sequence" in tags and bool(seen["results"]), tags


PARTS = [Part("results", xspec.plan, run, 2000)]
