"""Driver results are compared with every hook result."""

import copy

from hypothesis import strategies as st

from lib import bspec, guard, mspec
from lib.common import check, quiet, same
from lib.fakedut import StepBudget
from lib.runner import Part
from lib.scale import sizes

ID = "M03"
RULE = (
    "A case is a generated env with up to three (rarely eight) models of driver and agent hooks in both orders and "
    "sequential or parallel driver calls; every call has a result of its own and every hook of it "
    "returns None, the same, an equal or a different value (falsy ones included). run() must fail exactly "
    "when a different one is returned, with one logged match per compared result. Non-trivial: some call "
    "has at least two compared hook results."
)
ASSUMPTIONS = ["Equality is Python's == of the driver's and the hook's value."]
VALUES = [0, False, "", [], {}, (), 0.0, 1, True, "x", [1], {"a": 1}, None, 7, "None", [None], -1, {"a": 1, "b": 2}, {"a": {"b": [1, 2]}}, [1, 2], (1, 2), "ab", 1 << 70, 0.1, list(range(12)), "ab" * 40, {i: i for i in range(12)}, "x ", 1.0, [True, 0], "1"]
DIFFER = [0, False, "", [], {}, 1, "x", [1], {"a": 1}, -1, "None", [[]]]
# values a careless comparison could take for the same as VALUES[i]
NEAR = {
    "{'a': 1}": [{"a": 1, "b": 2}, {"a": 2}, {"a": 1, "b": None}, {"A": 1}],
    "{'a': 1, 'b': 2}": [{"a": 1}, {"a": 1, "b": 3}, {"a": 1, "b": 2, "c": 3}, {"b": 2}],
    "{'a': {'b': [1, 2]}}": [{"a": {"b": [1, 3]}}, {"a": {"b": [1]}}, {"a": {}}, {"a": {"b": [2, 1]}}],
    "[1]": [[1, 1], [], [2], (1,), [1, None]],
    "[1, 2]": [[2, 1], [1], [1, 2, 3], (1, 2), [1, 3]],
    "(1, 2)": [(2, 1), (1,), (1, 2, 3), [1, 2], (1, 3)],
    "'x'": ["X", "x ", "xx", ["x"]],
    "'ab'": ["aB", "a", "abc", "ba", ["a", "b"]],
    "'None'": ["none", "", [None]],
    str(1 << 70): [(1 << 70) + 1, -(1 << 70), float(1 << 69), str(1 << 70)],
    "0.1": [0.2, 0.1000001, 0, "0.1"],
    "-1": [1, 0, 0xFFFFFFFF, "-1"],
    "0": ["0", 1, [0]],
    "{}": [{"a": 0}, [], ()],
    str(list(range(12))): [list(range(11)), list(range(11)) + [0], list(range(13))],
    repr("ab" * 40): ["ab" * 39, "ab" * 39 + "ac", "ab" * 40 + "a"],
    str({i: i for i in range(12)}): [
        {i: i for i in range(11)},
        {i: min(i, 10) for i in range(12)},
        {i: i for i in range(13)},
    ],
    "[None]": [[], [0], [None, None]],
    "'x '": ["x", " x", "x  ", "x\t"],
    "'1'": [1, "01", "1.0", True, "1 "],
    "1": ["1", 2, -1, [1], 1.5, 257],
}
# values that equal VALUES[i] and look different
TWIN = {
    "{'a': 1, 'b': 2}": [{"b": 2, "a": 1}, {"b": 2.0, "a": True}],
    str({i: i for i in range(12)}): [{i: i for i in range(11, -1, -1)}],
    "{'a': 1}": [{"a": 1.0}, {"a": True}],
    "[1]": [[1.0], [True]],
    "[1, 2]": [[1.0, 2.0], [True, 2]],
    "(1, 2)": [(1.0, 2)],
    "[True, 0]": [[1, False], [1.0, 0.0]],
    "0": [False, 0.0, -0.0],
    "False": [0, 0.0],
    "0.0": [0, False],
    "1": [True, 1.0],
    "1.0": [1, True],
    "True": [1, 1.0],
    "-1": [-1.0],
}


@st.composite
def plan(draw):
    env = draw(mspec.env_spec(monitors=False, sigs=["uid, dur"], max_agents=2))
    models = [
        draw(mspec.model_spec(env, max_members=4)) for _ in range(draw(sizes(3, 8, 1)))
    ]
    values = draw(
        st.lists(
            st.sampled_from(["none", "same", "equal", "equal", "twin"]), min_size=4, max_size=40
        )
    )
    batches = []
    uid = 0
    for _ in range(draw(st.integers(1, 3))):
        calls = []
        for _ in range(draw(st.integers(1, 3))):
            agent, method = draw(st.sampled_from(mspec.drivers(env)))
            calls.append(
                {
                    "agent": agent,
                    "method": method,
                    "uid": uid,
                    "dur": draw(st.integers(0, 2)),
                    "value": draw(st.integers(0, len(VALUES) - 1)),
                }
            )
            uid += 1
        batches.append(
            {"how": draw(st.sampled_from(["await", "gather", "executor"])), "calls": calls}
        )
    return {
        "env": env,
        "models": models,
        "batches": batches,
        "values": values,
        "bad": draw(
            st.none()
            | st.tuples(st.integers(0, 8) | st.integers(0, 30) | st.integers(0, 90), st.booleans(), st.integers(0, 400))
        ),
        "linger": draw(st.integers(0, 3)),
    }


def run(p):
    import toffee

    cap = quiet("INFO")
    dut = bspec.make_dut(["a"], max_steps=200)
    env = p["env"]
    results, compared = {}, {}
    state = {"n": 0, "bad": False}
    calls = {c["uid"]: c for b in p["batches"] for c in b["calls"]}

    def value_of(uid):
        v = VALUES[calls[uid]["value"]]
        # calls with the same kind of value still have different values
        if isinstance(v, int) and not isinstance(v, bool) and v == 7:
            return 700 + uid
        return copy.deepcopy(v)

    async def on_drive(self, method, args):
        uid = args["uid"]
        if args["dur"]:
            await toffee.ClockCycles(dut, args["dur"])
        return results.setdefault(uid, value_of(uid))

    async def on_monitor(self, method):
        return None

    def on_hook(self, m, args):
        uid = (args["item"] if m["kind"] == "agent" else args)["uid"]
        want = value_of(uid)
        n = state["n"]
        state["n"] += 1
        kind = p["values"][n % len(p["values"])]
        if p["bad"] is not None and n == p["bad"][0]:
            pool = DIFFER
            if p["bad"][1]:
                pool = NEAR.get(repr(want), DIFFER)
            got = copy.deepcopy(pool[p["bad"][2] % len(pool)])
            if not (want == got):
                state["bad"] = True
        elif kind == "none":
            got = None
        elif kind == "same":
            got = results.setdefault(uid, want)
        elif kind == "twin":
            pool = TWIN.get(repr(want), [want])
            got = copy.deepcopy(pool[n % len(pool)])
        else:
            got = want
        if got is not None:
            compared[uid] = compared.get(uid, 0) + 1
        return got

    def handle():
        toffee.start_clock(dut)
        bundle = toffee.Bundle.new_class_from_list(["a"])().bind(dut)
        agents = mspec.build_agents(env, on_drive, on_monitor)
        obj = mspec.build_env(env, agents, bundle)
        for spec in p["models"]:
            obj.attach(mspec.build_model(spec, env, on_hook)())
        return obj

    async def test(obj):
        for b in p["batches"]:
            coros = [
                mspec.call(obj, c["agent"], c["method"], [c["uid"], c["dur"]], {})
                for c in b["calls"]
            ]
            if b["how"] == "await":
                for c in coros:
                    await c
            elif b["how"] == "gather":
                await toffee.gather(*coros)
            else:
                async with toffee.Executor() as ex:
                    for c in coros:
                        ex(c)
        await toffee.ClockCycles(dut, p["linger"])
        return "done"

    tags = {b["how"] for b in p["batches"]}
    try:
        out = toffee.run(test, handle)
    except (StepBudget, guard.GuardError) as exc:
        check(False, "the run does not end: %s", exc)
    except Exception as exc:
        check(not dut.exhausted, "the run does not end")
        check(state["bad"], "run() failed although all results are equal: %r", exc)
        tags.add("mismatch")
        return True, tags
    check(not state["bad"], "a different hook result went unnoticed")
    same(out, "done", "value of the run")
    matches = [m for m in cap.of("INFO") if m.startswith("Match")]
    same(len(matches), sum(compared.values()), "number of logged matches")
    return max(compared.values(), default=0) >= 2, tags


PARTS = [Part("results", plan, run, 2500)]
