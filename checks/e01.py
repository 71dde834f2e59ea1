"""The Executor runs groups in parallel and calls in a group in sequence."""

from lib import xspec
from lib.common import check, quiet, same
from lib.runner import Part

ID = "E01"
RULE = (
    "A case is a sequence of Executor blocks (all exit modes, nested through custom functions, calls of "
    "drivers of several envs, functions and methods, explicit and default groups, waits inside the "
    "block); the start and end cycle of every call and the cycle in which every block is left are "
    "computed independently. Non-trivial: several groups, one of them with several calls."
)
ASSUMPTIONS = ["A block with exit=any has at least one group.", "No call raises (see A04)."]


def run(p):
    quiet()
    seen, fore = xspec.execute(p)
    for what in ("start", "end"):
        want = getattr(fore, what)
        got = seen[what]
        same(len({u for u, _ in got}), len(got), f"calls that {what} once")
        for uid, cyc in got:
            same(cyc, want[uid], f"cycle of the {what} of call {uid}")
        check(
            len(got) == len(want),
            "calls %s never %s",
            sorted(set(want) - {u for u, _ in got}),
            what,
        )
    for key, cyc in seen["left"].items():
        same(cyc, fore.left[key], f"cycle in which {key} is left")
    for got, want in seen["next"]:
        same(got, want, "cycle after a block and its wait_all")
    groups, tags = xspec.stats(p)
    return groups >= 2 and "sequence" in tags, tags


PARTS = [Part("schedule", xspec.plan, run, 2000)]
