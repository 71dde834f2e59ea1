"""Hooks run in priority order on the right side of the driver."""

from hypothesis import strategies as st

from lib import bspec, mspec
from lib.common import check, quiet, same
from lib.runner import Part

ID = "M02"
RULE = (
    "A case is a generated env, up to three models with prioritised driver, agent and monitor hooks, and "
    "batches of parallel driver calls (plain, gathered, executor groups, with and without priority and "
    "sche_order, and calls made by the drivers themselves); a simulation of the calls says in which cycle and which round of pending hooks each "
    "hook runs. Non-trivial: some round has hooks of two different priorities."
)
ASSUMPTIONS = [
    "Hooks of one model that become pending through the same call may run in any order at equal priority.",
]


@st.composite
def plan(draw):
    env = draw(mspec.env_spec(sigs=["uid, dur"], max_agents=2))
    models = [
        draw(mspec.model_spec(env, max_members=5)) for _ in range(draw(st.integers(1, 3)))
    ]
    batches = []
    for _ in range(draw(st.integers(1, 4))):
        how = draw(st.sampled_from(["executor", "executor", "executor", "gather", "await"]))
        calls = []
        for _ in range(draw(st.integers(1, 5))):
            agent, method = draw(st.sampled_from(mspec.drivers(env)))
            c = {"agent": agent, "method": method, "dur": draw(st.sampled_from([0, 0, 1, 2]))}
            if how == "executor":
                c["prio"] = draw(st.sampled_from([None, None, 0, 1, 2, 9, 10, 50, 99]))
                c["order"] = draw(st.sampled_from([None, None, "model_first", "dut_first", "parallel"]))
                c["group"] = draw(st.sampled_from([None, None, None, "g", "h"]))
            if draw(st.integers(0, 3)) == 0:
                # a call the driver method makes itself
                agent, method = draw(st.sampled_from(mspec.drivers(env)))
                c["sub"] = {"agent": agent, "method": method, "dur": draw(st.sampled_from([0, 0, 1]))}
            calls.append(c)
        batches.append({"how": how, "calls": calls, "gap": draw(st.integers(1, 2))})
    # models attached before the k-th batch (0: when the env is made)
    late = draw(st.booleans())
    at = sorted(draw(st.integers(0, len(batches) - 1)) if late else 0 for _ in models)
    return {"env": env, "models": models, "batches": batches, "at": at}


def groups_of(batch):
    """Sequences of calls that run in parallel, in the order they start."""
    if batch["how"] == "await":
        return [batch["calls"]]
    if batch["how"] == "gather":
        return [[c] for c in batch["calls"]]
    out = {}
    for c in batch["calls"]:
        name = c["group"] if c["group"] is not None else f"{c['agent']}.{c['method']}"
        out.setdefault(name, []).append(c)
    return list(out.values())


def hooks_of(p, kind, agent, method):
    """(model index, hook) in the order the models are attached."""
    for i, m in enumerate(p["models"]):
        for h in m["hooks"]:
            if i in p["attached"] and mspec.answers(h, kind, agent, method):
                yield i, h


def simulate(p, batch, start):
    """What happens from cycle `start` on: event -> (cycle, round[, priority, tie])."""
    when = {}

    def simulate_call(c, cyc, rnd, g):
        before, after = [], []
        for i, h in hooks_of(p, "driver", c["agent"], c["method"]):
            order = c.get("order") or h["order"] or "model_first"
            if order == "parallel":  # the older name of model_first
                order = "model_first"
            (before if order == "model_first" else after).append((i, h))

        def prio(h):
            if c.get("prio") is not None:
                return c["prio"]
            return 99 if h["prio"] is None else h["prio"]

        for i, h in before:
            tie = (g, i) if g is not None else None
            when["hook", i, h["name"], c["uid"]] = (cyc, rnd, prio(h), tie)
        if before:
            rnd += 1
        when["start", c["uid"]] = (cyc, rnd)
        if c["dur"]:
            cyc, rnd = cyc + c["dur"], 0
        if c.get("sub"):
            cyc, rnd = simulate_call(c["sub"], cyc, rnd, None)
        when["end", c["uid"]] = (cyc, rnd)
        for i, h in after:
            when["hook", i, h["name"], c["uid"]] = (cyc, rnd, prio(h), None)
        return cyc, rnd

    for g, group in enumerate(groups_of(batch)):
        cyc, rnd = start, 0
        for n, c in enumerate(group):
            cyc, rnd = simulate_call(c, cyc, rnd, g if n == 0 else None)
    return when


def run(p):
    import toffee

    quiet()
    dut = bspec.make_dut(["a"], max_steps=300)
    env = p["env"]
    log = []
    kinds = {(i, h["name"]): h for i, m in enumerate(p["models"]) for h in m["hooks"]}

    async def on_drive(self, method, args):
        log.append((("start", args["uid"]), dut.cycles))
        if args["dur"]:
            await toffee.ClockCycles(dut, args["dur"])
        if args["uid"] in subs:
            await make(subs[args["uid"]])
        log.append((("end", args["uid"]), dut.cycles))

    async def on_monitor(self, method):
        return (dut.cycles, f"{self.ident[1]}.{method}")

    def on_hook(self, m, args):
        item = args
        if m["kind"] == "agent":
            item = args["item"]
        elif m["kind"] == "monitor":
            item = args["item"]
        if isinstance(item, tuple):
            log.append((("mhook", self.index, m["name"], item), dut.cycles))
        else:
            log.append((("hook", self.index, m["name"], item["uid"]), dut.cycles))

    def handle():
        toffee.start_clock(dut)
        bundle = toffee.Bundle.new_class_from_list(["a"])().bind(dut)
        agents = mspec.build_agents(env, on_drive, on_monitor)
        obj = mspec.build_env(env, agents, bundle)
        for i, spec in enumerate(p["models"]):
            m = mspec.build_model(spec, env, on_hook)()
            m.index = i
            models.append(m)
        attach(obj, 0)
        made.append(obj)
        return obj

    def attach(obj, k):
        for i, m in enumerate(models):
            if p["at"][i] == k:
                obj.attach(m)
                attached[i] = dut.cycles

    made, subs, models, attached = [], {}, [], {}
    p = dict(p, attached=attached)
    uid = 0
    for b in p["batches"]:
        for c in b["calls"]:
            c["uid"] = uid
            uid += 1
            if c.get("sub"):
                subs[c["uid"]] = c["sub"]
                c["sub"]["uid"] = uid
                uid += 1
    when = {}

    def make(c):
        return mspec.call(made[0], c["agent"], c["method"], [c["uid"], c["dur"]], {})

    async def test(obj):
        for k, b in enumerate(p["batches"]):
            await toffee.ClockCycles(dut, b["gap"])
            if k:
                attach(obj, k)
            when.update(simulate(p, b, dut.cycles))

            if b["how"] == "await":
                for c in b["calls"]:
                    await make(c)
            elif b["how"] == "gather":
                await toffee.gather(*[make(c) for c in b["calls"]])
            else:
                async with toffee.Executor() as ex:
                    for c in b["calls"]:
                        kw = {}
                        if c["prio"] is not None:
                            kw["priority"] = c["prio"]
                        if c["order"] is not None:
                            kw["sche_order"] = c["order"]
                        if c["group"] is not None:
                            kw["sche_group"] = c["group"]
                        ex(make(c), **kw)
        return dut.cycles

    end = toffee.run(test, handle)
    optional = set()
    for c in range(1, end + 1):
        for agent, method in mspec.monitors(env):
            for i, h in hooks_of(p, "monitor", agent, method):
                prio = h["prio"]
                if prio is None:
                    prio = 0 if h["kind"] == "monitor" else 99
                if c < attached[i]:
                    continue
                ev = "mhook", i, h["name"], (c, f"{agent}.{method}")
                when[ev] = (c, 0, prio, (-1, 0))
                if c == attached[i]:
                    # the monitor may have run before or after the attach
                    optional.add(ev)
    log = [e for e in log if e[1] <= end]
    seen = {}
    for pos, (ev, cyc) in enumerate(log):
        check(ev not in seen, "%s happened twice", ev)
        check(ev in when, "%s happened unexpectedly in cycle %d", ev, cyc)
        same(cyc, when[ev][0], f"cycle of {ev}")
        seen[ev] = pos
    for ev in when:
        check(ev in seen or ev in optional, "%s did not happen, expected in cycle %d", ev, when[ev][0])

    # rounds and priorities
    order = [(when[ev][:3], ev) for ev, _ in log if ev[0] in ("hook", "mhook")]
    for (a, x), (b, y) in zip(order, order[1:]):
        check(a <= b, "%s (cycle, round, priority: %s) ran before %s (%s)", x, a, y, b)
        ta, tb = when[x][3], when[y][3]
        if a == b and ta is not None and tb is not None:
            check(ta <= tb, "%s ran before %s, which became pending earlier", x, y)
    # sides of the driver, rounds of the driver
    for ev, pos in seen.items():
        if ev[0] != "hook":
            continue
        own = kinds[ev[1], ev[2]]
        uid = ev[3]
        first = (when[ev][:2]) < when["start", uid][:2]
        if first:
            check(pos < seen["start", uid], "%s ran after its driver had started", ev)
        else:
            check(pos > seen["end", uid], "%s ran before its driver had ended", ev)
        assert own
    rounds = {}
    for key, ev in order:
        rounds.setdefault(key[:2], set()).add(key[2])
    tags = {b["how"] for b in p["batches"]}
    if any(len(r) > 1 for r in rounds.values()):
        tags.add("priorities")
    if any(e[0] == "mhook" for e in when):
        tags.add("monitor hooks")
    if any(p["at"]):
        tags.add("model attached later")
    if subs:
        tags.add("calls in drivers")
    return any(len(r) > 1 for r in rounds.values()), tags


PARTS = [Part("order", plan, run, 2000)]
