"""Monitors observe every cycle once and lose nothing silently."""

import re

from hypothesis import strategies as st

from lib import bspec, mspec
from lib.common import Odd, check, quiet, same
from lib.runner import Part
from lib.scale import flags

ID = "M07"
RULE = (
    "A case is one or two agents with monitors whose calls take generated numbers of cycles and return "
    "generated values, models hooking them in all forms, queues of generated sizes started at generated "
    "times, and a test that drives, waits, reads and asks for sizes; calls, hooks, queue contents and "
    "dropped values are compared with a cycle-accurate reference. Non-trivial: a queue overflowed or a "
    "monitor call took several cycles."
)
ASSUMPTIONS = [
    "The env is created by env_handle, before the test starts.",
    "start_monitor is called again only while the queue is empty.",
]
VALUES = [None, None, 0, "", False, [], 5, "text", {"k": 0}, ("t",), 1.5, float("nan"), Odd()]
HORIZON = 240


@st.composite
def plan(draw):
    env = draw(mspec.env_spec(sigs=["x"], max_agents=2))
    if not mspec.monitors(env):
        env["classes"][env["agents"][0][1]]["monitors"] = ["m"]
    mons = mspec.monitors(env)
    behaviour = []
    for _ in mons:
        behaviour.append(
            draw(
                st.lists(
                    st.tuples(
                        st.sampled_from([0, 0, 0, 0, 1, 2, 3]),
                        st.integers(0, len(VALUES) - 1),
                    ),
                    min_size=1,
                    max_size=8,
                )
            )
        )
    models = [
        draw(mspec.model_spec(env, max_members=4)) for _ in range(draw(st.integers(0, 2)))
    ]
    ample = draw(flags(12))
    starts = [
        draw(
            st.none()
            | st.tuples(st.sampled_from([-1, -1, 0, 1, 3]), st.sampled_from([None, 0, 1, 2, 3, 4, 20][-1 if ample else 0 :]))
        )
        for _ in mons
    ]
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.sampled_from(["clk", "clk", "clk", "read", "read", "read2", "size", "drive", "again"]))
        ops.append([k, draw(st.integers(0, len(mons) - 1)), draw(st.integers(0, 25 if ample else 3))])
    return {
        "env": env,
        "behaviour": behaviour,
        "models": models,
        "starts": starts,
        "ops": ops,
    }


def emissions(behaviour):
    """([start cycle of every call], {cycle: value}) of one monitor."""
    starts, out = [], {}
    cyc, k = 1, 0
    while cyc < HORIZON:
        dur, v = behaviour[k % len(behaviour)]
        starts.append(cyc)
        cyc += dur
        if VALUES[v] is not None:
            out[cyc] = (VALUES[v], k)
        cyc += 1
        k += 1
    return starts, out


def run(p):
    import toffee

    cap = quiet("ERROR")
    dut = bspec.make_dut(["a"], max_steps=900)
    env = p["env"]
    mons = mspec.monitors(env)
    log, hooks = [], []
    count = {m: 0 for m in mons}
    plans = {m: emissions(b) for m, b in zip(mons, p["behaviour"])}
    state = {"drops": 0, "order": []}

    async def on_drive(self, method, args):
        state["order"].append((dut.cycles, "driver"))

    async def on_monitor(self, method):
        who = (self.ident[1], method)
        state["order"].append((dut.cycles, "monitor"))
        log.append((dut.cycles, who))
        b = p["behaviour"][mons.index(who)]
        dur, v = b[count[who] % len(b)]
        count[who] += 1
        if dur:
            await self.monitor_step(dur)
        return VALUES[v]

    def on_hook(self, m, args):
        if m["kind"] == "agent":
            if args["name"] in [f"{a}.{d}" for a, d in mspec.drivers(env)]:
                return
            hooks.append((dut.cycles, self.index, m["name"], args["name"], repr(args["item"])))
        elif m["kind"] == "monitor":
            hooks.append((dut.cycles, self.index, m["name"], "", repr(args["item"])))

    def handle():
        toffee.start_clock(dut)
        bundle = toffee.Bundle.new_class_from_list(["a"])().bind(dut)
        agents = mspec.build_agents(env, on_drive, on_monitor)
        obj = mspec.build_env(env, agents, bundle)
        for i, spec in enumerate(p["models"]):
            m = mspec.build_model(spec, env, on_hook)()
            m.index = i
            obj.attach(m)
        return obj

    queues = {}  # monitor -> {"items", "size"}
    seen = [0]
    dropped = []

    def start(obj, at):
        for who, s in zip(mons, p["starts"]):
            if s is not None and s[0] == at:
                agent = getattr(obj, who[0])
                same(agent.monitor_size(who[1]), 0, f"size of {who} before it is started")
                if s[1] is None:
                    agent.start_monitor(who[1])
                    queues[who] = {"items": [], "size": 4}  # documented default
                else:
                    agent.start_monitor(who[1], s[1])
                    queues[who] = {"items": [], "size": s[1]}

    def advance():
        """The reference queues take the values up to the current cycle."""
        while seen[0] < dut.cycles:
            seen[0] += 1
            for who, q in queues.items():
                got = plans[who][1].get(seen[0])
                if got is None:
                    continue
                if len(q["items"]) >= q["size"]:
                    dropped.append((who, got[0]))
                else:
                    q["items"].append(got[0])

    async def wait(n):
        await toffee.ClockCycles(dut, n)
        advance()

    async def test(obj):
        start(obj, -1)
        for n, (k, i, arg) in enumerate(p["ops"]):
            start(obj, n)
            who = mons[i]
            agent = getattr(obj, who[0])
            if k == "clk":
                await wait(arg)
            elif k == "drive":
                await mspec.call(obj, *mspec.drivers(env)[arg % len(mspec.drivers(env))], [n], {})
                advance()
            elif who not in queues:
                continue
            elif k == "again":
                if not queues[who]["items"]:
                    agent.start_monitor(who[1], arg)
                    queues[who]["size"] = arg
            elif k == "size":
                same(
                    agent.monitor_size(who[1]), len(queues[who]["items"]), f"size of {who} in step {n}"
                )
            elif k == "read":
                q = queues[who]
                if q["size"] == 0:
                    continue  # nothing ever arrives
                if not q["items"]:
                    later = [c for c in plans[who][1] if c > dut.cycles]
                    if not later or min(later) > HORIZON - 10:
                        continue
                    at = min(later)
                    got = await getattr(agent, who[1])()
                    same(dut.cycles, at, f"cycle in which a waiting read of {who} returns")
                    advance()
                else:
                    at = dut.cycles
                    got = await getattr(agent, who[1])()
                    same(dut.cycles, at, f"cycle in which a read of {who} returns")
                same(repr(got), repr(q["items"].pop(0)), f"value read from {who} in step {n}")
            elif k == "read2":
                # two readers get the two oldest values in order
                q = queues[who]
                if len(q["items"]) < 2:
                    continue
                got = await toffee.gather(getattr(agent, who[1])(), getattr(agent, who[1])())
                same(repr(got), repr([q["items"].pop(0), q["items"].pop(0)]), f"values of {who}")
            if dut.cycles > HORIZON - 60:
                break
        await wait(1)
        for who, q in queues.items():
            agent = getattr(obj, who[0])
            same(agent.monitor_size(who[1]), len(q["items"]), f"size of {who} at the end")
            while q["items"]:
                got = await getattr(agent, who[1])()
                same(repr(got), repr(q["items"].pop(0)), f"value left in {who}")
        errors = list(cap.of("ERROR"))
        state["drops"] = len(dropped)
        same(len(errors), len(dropped), f"errors about dropped values: {errors} for {dropped}")
        for who, value in sorted(dropped, key=lambda x: -len(str(x[1]))):
            name = re.compile(rf"(?<![\w.]){re.escape(who[0])}\.{re.escape(who[1])}(?![\w.])")
            hit = [e for e in errors if str(value) in e and name.search(e)]
            check(hit, "no error names the dropped value %r of %s: %s", value, who, errors)
            errors.remove(hit[0])
        return dut.cycles

    end = toffee.run(test, handle)
    want = sorted((c, who) for who in mons for c in plans[who][0] if c <= end)
    got = sorted(e for e in log if e[0] <= end)
    for a, b in zip(got, want):
        same(a, b, "(cycle, monitor) of a monitor call")
    same(len(got), len(want), "number of monitor calls up to the last cycle")
    want = []
    for agent, method in mons:
        for cyc, (value, _) in plans[agent, method][1].items():
            if cyc > end:
                continue
            for i, spec in enumerate(p["models"]):
                for h in spec["hooks"]:
                    if mspec.answers(h, "monitor", agent, method):
                        path = f"{agent}.{method}" if h["kind"] == "agent" else ""
                        want.append((cyc, i, h["name"], path, repr(value)))
    got = sorted(h for h in hooks if h[0] <= end)
    for a, b in zip(got, sorted(want)):
        same(a, b, "(cycle, model, hook, path, value) of a monitor hook")
    same(len(got), len(want), "number of monitor hook calls")
    # monitors come before the drivers of the same cycle
    drivers = set()
    for cyc, what in state["order"]:
        if what == "driver":
            drivers.add(cyc)
        else:
            check(cyc not in drivers, "a driver ran before a monitor in cycle %d", cyc)
    long = any(d and plans for b in p["behaviour"] for d, _ in b)
    tags = {op[0] for op in p["ops"]}
    if state["drops"]:
        tags.add("drops")
    if long:
        tags.add("long calls")
    return bool(state["drops"] or long), tags


PARTS = [Part("monitors", plan, run, 2000)]
