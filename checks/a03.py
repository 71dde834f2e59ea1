"""run() returns the test's outcome and leaves nothing behind."""

import asyncio
import collections

from hypothesis import strategies as st

from lib import bspec, guard
from lib.common import check, quiet, same
from lib.fakedut import StepBudget
from lib.runner import Part

ID = "A03"
RULE = (
    "A case is a sequence of run() calls over up to three generated runs (environment kind, test kind, "
    "operations with driver calls, background tasks, executors, models and delayers, value or exception, "
    "exceptions with hooks and tasks still pending); the first one is executed again at the end and must "
    "leave the same log. Non-trivial: some run fails or leaves tasks behind."
)
ASSUMPTIONS = [
    "One clock per run; the DUT may be stepped once more while the run ends.",
]


class Custom(Exception):
    pass


class Outcome(BaseException):
    """As pytest's own outcomes: not an Exception."""


EXC = {"assert": AssertionError, "value": ValueError, "custom": Custom, "outcome": Outcome}
Pair = collections.namedtuple("Pair", "first second")
VALUES = ["none", "zero", "object", "exception", "tuple", "false"]


@st.composite
def run_plan(draw):
    env = draw(st.sampled_from(["no", "no", "object", "none", "tuple0", "tuple1", "tuple2", "tuple7", "named", "list"]))
    kind = draw(st.sampled_from(["function", "method"] + (["coroutine"] if env == "no" else [])))
    ops = []
    for _ in range(draw(st.integers(0, 6))):
        k = draw(
            st.sampled_from(
                ["clk", "clk", "call", "call", "bg-call", "late-call", "task", "endless", "ex-none"]
                + ["component", "gather", "hookless", "crowd", "long"]
            )
        )
        ops.append([k, draw(st.integers(0, 3))])
    return {
        "env": env,
        "kind": kind,
        "ops": ops,
        "outcome": draw(
            st.sampled_from(["value"] * 5 + ["raise"] * 4 + (["env-raise"] if env != "no" else []))
        ),
        "value": draw(st.sampled_from(VALUES)),
        "exc": draw(st.sampled_from(sorted(EXC))),
        "model": draw(st.booleans()),
        "delayer": draw(st.integers(0, 2)),
        "noclock": draw(st.integers(0, 9)) == 0,
    }


@st.composite
def plan(draw):
    specs = draw(st.lists(run_plan(), min_size=1, max_size=3))
    order = draw(st.lists(st.integers(0, len(specs) - 1), min_size=0, max_size=3))
    return {"runs": specs, "order": [0] + order + [0]}


def perform(p):
    """Executes one run on a fresh DUT; returns its log after checking its outcome."""
    import toffee
    from toffee import Agent, Env, Model, agent_hook, driver_hook, driver_method
    from toffee import monitor_method
    from toffee.delay import Delayer

    dut = bspec.make_dut(["a"], max_steps=800)
    log, keep, ends, tasks = [], [], [], []
    calls = {"env": 0, "test": 0}
    clocked = not p["noclock"]
    state = {"end": None, "alive": 0, "finished": 0}
    value = {
        "none": None,
        "zero": 0,
        "object": object(),
        "exception": ValueError("just a value"),
        "tuple": (1, 2),
        "false": False,
    }[p["value"]]
    error = EXC[p["exc"]]("planted")
    env_value = {
        "no": None,
        "object": object(),
        "none": None,
        "tuple0": (),
        "tuple1": (object(),),
        "tuple2": (object(), [1]),
        "tuple7": (object(), None, [1], 3, (), object(), {}),
        "list": [object(), 2],
        "named": Pair(object(), 2),
    }[p["env"]]

    class Ag(Agent):
        @driver_method()
        async def d(self, n, dur):
            log.append((dut.cycles, "drive", n))
            await toffee.ClockCycles(self.bundle, dur)
            return n

        @driver_method()
        async def e(self, n, dur):
            log.append((dut.cycles, "drive-e", n))
            await toffee.ClockCycles(self.bundle, dur)
            return n

        @monitor_method()
        async def mon(self):
            log.append((dut.cycles, "monitor", 0))
            return dut.cycles

    class M1(Model):
        @driver_hook(agent_name="ag")
        def d(self, n, dur):
            log.append((dut.cycles, "hook-d", n))
            return n

        @agent_hook(sche_order="dut_first")
        def ag(self, name, item):
            log.append((dut.cycles, "hook-ag " + name, str(item)))

        async def main(self):
            while True:
                log.append((dut.cycles, "main", 0))
                await toffee.ClockCycles(dut, 1)

    class En(Env):
        def __init__(self):
            super().__init__()
            self.bundle = toffee.Bundle.new_class_from_list(["a"])().bind(dut)
            self.ag = Ag(self.bundle)
            if p["model"]:
                self.attach(M1())

    objs = {}

    def build():
        asyncio.get_running_loop()
        if clocked:
            toffee.start_clock(dut)
            objs["env"] = En()
            if p["delayer"]:
                objs["delayer"] = Delayer(objs["env"].bundle.a, p["delayer"])

    def handle():
        calls["env"] += 1
        same(calls["test"], 0, "tests started before the env was created")
        if p["outcome"] == "env-raise":
            raise error
        build()
        return env_value

    class Comp(toffee.Component if hasattr(toffee, "Component") else Model):
        async def main(self):
            while True:
                log.append((dut.cycles, "component", 0))
                await toffee.ClockCycles(dut, 1)

    def ending(name):
        state["alive"] += 1

        def end():
            state["alive"] -= 1
            ends.append(name)

        return end

    async def finite(i, n):
        end = ending("finite")
        try:
            await toffee.ClockCycles(dut, n)
            log.append((dut.cycles, "finite", i))
        finally:
            end()

    async def endless(i, n):
        end = ending("endless")
        try:
            while True:
                await toffee.ClockCycles(dut, n + 1)
                log.append((dut.cycles, "endless", i))
        finally:
            end()

    async def body(*args):
        calls["test"] += 1
        if p["env"] == "no":
            same(args, (), "arguments of the test")
            build()
        else:
            same(calls["env"], 1, "number of env_handle calls before the test")
            want = env_value if isinstance(env_value, tuple) else (env_value,)
            same(len(args), len(want), "number of arguments of the test")
            for a, w in zip(args, want):
                check(a is w, "the test got %r for %r", a, w)
        for i, (k, n) in enumerate(p["ops"] if clocked else []):
            ag = objs["env"].ag
            if k == "clk":
                await toffee.ClockCycles(dut, n)
            elif k == "call":
                same(await ag.d(i, n), i, "result of a driver call")
            elif k == "hookless":
                same(await ag.e(i, n), i, "result of a driver call")
            elif k == "gather":
                got = await toffee.gather(ag.d(i, n), ag.e(i, 1))
                same(got, [i, i], "result of gather")
            elif k == "bg-call":
                keep.append(toffee.create_task(ag.d(i, n)))
            elif k == "late-call":  # its hooks are pending when the next operation runs
                keep.append(toffee.create_task(ag.d(i, n)))
                await toffee.sleep(0)
            elif k == "task":
                keep.append(toffee.create_task(finite(i, n)))
            elif k == "endless":
                t = toffee.create_task(endless(i, n))
                if n < 3:
                    t.set_name(["main", "main_coro_2", "clock_loop"][n])
                keep.append(t)
            elif k == "ex-none":
                ex = toffee.Executor(exit="none")
                async with ex:
                    ex(ag.d(i, n))
                keep.append(ex)
            elif k == "component":
                keep.append(Comp())
            elif k == "crowd":
                for _ in range(12 * (n + 1)):
                    keep.append(toffee.create_task(endless(i, n)))
            elif k == "long":
                await toffee.ClockCycles(dut, 30 * (n + 1))
            log.append((dut.cycles, "op " + k, i))
        tasks.extend(asyncio.all_tasks())
        state["end"] = dut.cycles
        if p["outcome"] == "raise":
            raise error
        return value

    class Holder:
        async def test(self, *args):
            return await body(*args)

    if p["kind"] == "coroutine":
        test = body()
    elif p["kind"] == "method":
        test = Holder().test
    else:
        test = body
    fails = p["outcome"] != "value"
    try:
        if p["env"] == "no":
            got = toffee.run(test)
        else:
            got = toffee.run(test, handle)
    except StepBudget:
        check(False, "the run does not end")
    except guard.GuardError as exc:
        check(False, "the run hangs: %s", exc)
    except BaseException as exc:
        if not fails or exc is not error:
            raise
    else:
        check(not fails, "run() returned %r although the test raised %r", got, error)
        check(got is value, "run() returned %r, the test %r", got, value)

    same(calls["env"], 0 if p["env"] == "no" else 1, "number of env_handle calls")
    same(calls["test"], 0 if p["outcome"] == "env-raise" else 1, "number of test starts")
    for t in tasks:
        check(t.done(), "task %s is left over", t.get_name())
    same(state["alive"], 0, "number of tasks that never ended")
    end = state["end"]
    if end is not None and clocked:
        check(dut.cycles <= end + 2, "test ended in cycle %d, DUT at %d", end, dut.cycles)
        if not fails:
            check(dut.cycles > end, "cycle %d was not completed", end)
            # the last cycle has been completed for all components
            want = list(range(1, end + 1))
            got = sorted(c for c, k, _ in log if k == "monitor")
            same([c for c in got if c <= end], want, "cycles of the monitor calls")
            if p["model"]:
                got = sorted(c for c, k, _ in log if k == "main")
                same([c for c in got if c <= end], want, "cycles of the model's main")
                called = [(c, i) for c, k, i in log if k == "drive"]
                hooked = [i for c, k, i in log if k == "hook-d"]
                for c, i in called:
                    same(hooked.count(i), 1, f"hooks of driver call {i}")
                for i, (k, n) in enumerate(p["ops"]):
                    if k == "call":
                        got = [x for x in log if x[1] == "hook-ag ag.d" and f"'n': {i}," in x[2]]
                        same(len(got), 1, f"dut_first hooks of driver call {i}")
            if p["delayer"] and end >= p["delayer"]:
                same(objs["delayer"].value, 0, "value of the delayer after the run")
    late = [x for x in log if end is not None and x[0] > end + 1]
    same(late, [], "activity after the last cycle")
    if not fails:
        return ("value", sorted(log, key=repr), sorted(ends)), log
    # how far the components of a failing run get in its last cycle is not specified
    cut = [x for x in log if end is not None and x[0] < end]
    return ("raise", sorted(cut, key=repr), sorted(ends)), log


def run(p):
    quiet()
    first, logs = {}, []
    for i in p["order"]:
        res, log = perform(p["runs"][i])
        for old, n in logs:
            check(len(old) == n, "an earlier run goes on in a later one: %s", old[n:])
        logs.append((log, len(log)))
        if i not in first:
            first[i] = res
            continue
        was = first[i]
        same(res[0], was[0], "kind of outcome of a repeated run")
        for a, b in zip(res[1], was[1]):
            same(a, b, "log entry of a repeated run")
        same(len(res[1]), len(was[1]), "length of the log of a repeated run")
        same(res[2], was[2], "tasks ended in a repeated run")
    tags = set()
    leftover = False
    for i in set(p["order"]):
        r = p["runs"][i]
        tags |= {r["env"], r["kind"], r["outcome"]} | {k for k, _ in r["ops"]}
        leftover |= any(k in ("bg-call", "endless", "ex-none", "late-call") for k, _ in r["ops"])
    return leftover or any(p["runs"][i]["outcome"] != "value" for i in set(p["order"])), tags


PARTS = [Part("runs", plan, run, 1200)]
