"""No failure inside a component is lost."""

import asyncio

from hypothesis import strategies as st

from lib import bspec, guard
from lib.common import check, quiet
from lib.fakedut import StepBudget
from lib.runner import Part
from lib.scale import sizes

ID = "A04"
RULE = (
    "A case is a scenario of driver calls (awaited, gathered, in executors of every exit mode, in the "
    "background) over an env with three models (rarely up to nine), and one component (driver, monitor, driver/agent/monitor "
    "hook, model main, result comparison) that fails in its k-th activation; run() must raise exactly "
    "when the failure happened. Non-trivial: the failure happened, but not in an awaited driver call."
)
ASSUMPTIONS = [
    "A background call whose task or executor is kept but never awaited is the program's own business.",
    "Failures are Exceptions (no KeyboardInterrupt or SystemExit).",
]
WHERE = [
    "driver",
    "monitor",
    "driver_hook",
    "driver_hook_after",
    "agent_hook",
    "agent_hook_after",
    "agent_hook_mon",
    "monitor_hook",
    "main",
    "compare",
    "compare_after",
    "compare_agent",
]
EXC = {
    "assert": AssertionError,
    "value": ValueError,
    "key": KeyError,
    "runtime": RuntimeError,
    "type": TypeError,
    "attribute": AttributeError,
    "index": IndexError,
    "notimpl": NotImplementedError,
    "timeout": TimeoutError,
    "os": OSError,
    "empty": asyncio.QueueEmpty,
    "zero": ZeroDivisionError,
    "stop": StopIteration,
}


@st.composite
def plan(draw):
    steps = []
    for _ in range(draw(st.integers(0, 6))):
        steps.append(
            {
                "how": draw(
                    st.sampled_from(
                        ["await", "gather", "all", "none", "none-wait", "any", "task"]
                        + ["any-wait", "any-kept", "none-kept", "task-wait"]
                    )
                ),
                "calls": draw(
                    st.lists(
                        st.tuples(st.integers(0, 1), st.integers(0, 2)), min_size=1, max_size=3
                    )
                ),
                "clk": draw(st.sampled_from([0, 0, 1, 1, 2])),
            }
        )
    return {
        "steps": steps,
        "where": draw(st.sampled_from(WHERE)),
        "k": draw(st.integers(1, 5)),
        "exc": draw(st.sampled_from(["custom"] + sorted(EXC))),
        "env": draw(st.booleans()),
        "mon": draw(st.sampled_from(["all", "even", "none", "falsy"])),
        "lead": draw(st.integers(0, 2)),
        "fail": draw(st.integers(0, 5)) > 0,
        "fill": draw(sizes(1, 6, one_in=8)),
    }


class Custom(Exception):
    pass


def make_exc(kind):
    return EXC.get(kind, Custom)("planted")


def run(p):
    import toffee
    from toffee import Agent, Env, Model, agent_hook, driver_hook, driver_method
    from toffee import monitor_hook, monitor_method

    quiet()
    dut = bspec.make_dut(["a"], max_steps=120)
    counts = {}
    state = {"failed": None, "call": None}
    where = p["where"] if p["fail"] else "nowhere"

    def activate(name):
        """Counts activations of `name`; true in the failing one."""
        counts[name] = counts.get(name, 0) + 1
        return name == where and counts[name] == p["k"]

    def maybe_fail(name):
        if activate(name):
            state["failed"] = dut.cycles
            raise make_exc(p["exc"])

    class Ag(Agent):
        @driver_method()
        async def d0(self, dur, tag):
            return await body(self, dur, tag)

        @driver_method()
        async def d1(self, dur, tag):
            return await body(self, dur, tag)

        @monitor_method()
        async def mon(self):
            maybe_fail("monitor")
            c = dut.cycles
            return {
                "all": c,
                "even": c if c % 2 == 0 else None,
                "none": None,
                "falsy": [0, "", False, []][c % 4],
            }[p["mon"]]

    mismatch = set()

    own = set()  # calls the test started and never waits for

    async def body(self, dur, tag):
        if activate("driver"):
            state["failed"], state["call"] = dut.cycles, tag
            raise make_exc(p["exc"])
        await toffee.ClockCycles(self.bundle, dur)
        if tag in mismatch:  # the hook's different result will now be compared
            state["failed"] = dut.cycles
        return tag

    def result(name, tag, after):
        if activate(name):
            if after:
                state["failed"] = dut.cycles
            else:
                mismatch.add(tag)
            return ["other"]
        return tag

    class M1(Model):
        @driver_hook(agent_name="ag")
        def d0(self, dur, tag):
            maybe_fail("driver_hook")
            return result("compare", tag, False)

        @driver_hook(agent_name="ag", sche_order="dut_first")
        def d1(self, dur, tag):
            maybe_fail("driver_hook_after")
            return result("compare_after", tag, True)

        @monitor_hook("ag.mon")
        def m(self, item):
            maybe_fail("monitor_hook")

    class M2(Model):
        @agent_hook(methods=["ag.d0", "ag.mon"])
        def early(self, name, item):
            if name == "ag.mon":
                maybe_fail("agent_hook_mon")
                return None
            maybe_fail("agent_hook")
            return result("compare_agent", item["tag"], False)

        @agent_hook(methods=["ag.d1"], sche_order="dut_first")
        def late(self, name, item):
            maybe_fail("agent_hook_after")

    class Filler(Model):
        @driver_hook(agent_name="ag")
        def d0(self, dur, tag):
            return None

        @agent_hook(agents=["ag"])
        def any_of(self, name, item):
            return item["tag"] if name != "ag.mon" else None

    class M3(Model):
        async def main(self):
            while True:
                maybe_fail("main")
                await toffee.ClockCycles(dut, 1)

    class En(Env):
        def __init__(self):
            super().__init__()
            self.bundle = toffee.Bundle.new_class_from_list(["a"])().bind(dut)
            self.ag = Ag(self.bundle)
            for _ in range(p["fill"]):
                self.attach(Filler())
            self.attach(M1())
            self.attach(M2())
            self.attach(M3())

    def handle():
        toffee.start_clock(dut)
        return En()

    seq, keep, lost = [0], [], []

    async def scenario(env):
        ag = env.ag
        await toffee.ClockCycles(dut, p["lead"])
        for s in p["steps"]:
            coros = []
            for d, dur in s["calls"]:
                seq[0] += 1
                coros.append((ag.d0 if d == 0 else ag.d1)(dur, seq[0]))
            how = s["how"]
            if how == "await":
                for c in coros:
                    await c
            elif how == "gather":
                await toffee.gather(*coros)
            elif how == "task":
                for c in coros:
                    toffee.create_task(c)
            elif how == "task-wait":
                for t in [toffee.create_task(c) for c in coros]:
                    await t
                t = None
            else:
                before = state["failed"]
                here = range(seq[0] - len(coros) + 1, seq[0] + 1)
                if how in ("any-kept", "none-kept"):
                    own.update(here)
                ex = toffee.Executor(exit=how.split("-")[0])
                async with ex:
                    for c in coros:
                        ex(c)
                if how.startswith("any") and state["call"] in here and before is None:
                    lost.append(state["failed"])
                if how.endswith("-wait"):
                    await toffee.ClockCycles(dut, s["clk"])
                    await ex.wait_all()
                if how.endswith("-kept"):
                    keep.append(ex)
                del ex
            coros = c = None
            await toffee.ClockCycles(dut, s["clk"])
        return "fine"

    async def bare():
        return await scenario(handle())

    outcome = None
    try:
        if p["env"]:
            outcome = toffee.run(scenario, handle)
        else:
            outcome = toffee.run(bare)
    except StepBudget:
        check(False, "the run never ends after a failure of %s", where)
    except guard.GuardError as exc:
        check(False, "the run hangs (%s) after a failure of %s", exc, where)
    except Exception as exc:
        check(not dut.exhausted, "the run never ends after a failure of %s", where)
        check(
            state["failed"] is not None,
            "run() raised %r although nothing failed",
            exc,
        )
    else:
        check(outcome == "fine", "run() returned %r", outcome)
        check(not lost, "a group that failed in cycle %s ended a block (exit=any) normally", lost)
        if state["call"] in own:
            return False, ["own-call"]
        check(
            state["failed"] is None,
            "%s failed in cycle %s (activation %d), run() returned normally in cycle %d",
            where,
            state["failed"],
            p["k"],
            dut.cycles,
        )
    if state["failed"] is None:
        return False, ["nothing-failed"]
    tags = {where, "exc-" + p["exc"]}
    tags |= {s["how"] for s in p["steps"]}
    return where != "driver" or any(s["how"] != "await" for s in p["steps"]), tags


PARTS = [Part("failures", plan, run, 2500)]
