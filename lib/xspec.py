"""Generated Executor programs and when/what each of their calls must do.

block {"exit", "calls": [call], "lag": cycles in the block after adding, "wait": bool, "gap"}
call  {"kind": "driver"|"func"|"method"|"nested", "who", "dur", "group", "value", "uid"}
A nested call is a custom function that runs an inner block and then waits dur cycles.
"""

from hypothesis import strategies as st

from .scale import sizes

FUNCS = ["work", "f", "d", "send", "helper", "run_all", "fa", "fb", "fc", "fd", "fe", "ff"]
GROUPS = ["g", "h", "a.d", "f", "0", ""]
VALUES = [None, 0, 1, "", "x", [], [1], [[2]], {}, (1, 2), False]


@st.composite
def call(draw, depth, agents, names=(None,) * 6 + tuple(GROUPS)):
    kind = draw(st.sampled_from(["driver"] * 4 + ["func"] * 2 + ["method"] + ["nested"] * (2 if depth else 0)))
    out = {
        "kind": kind,
        "dur": draw(st.sampled_from([0, 0, 1, 1, 2, 3, 5])),
        "group": draw(st.sampled_from(names)),
        "value": draw(st.integers(0, len(VALUES) - 1)),
        "lag": draw(st.sampled_from([0, 0, 0, 0, 1])),
    }
    if kind == "driver":
        out["who"] = [draw(st.sampled_from(agents)), draw(st.sampled_from(["d", "send"]))]
        # without a reference model these do not change what happens when
        out["prio"] = draw(st.sampled_from([None] * 3 + [0, 1, 5, 50, 99]))
        out["order"] = draw(st.sampled_from([None] * 4 + ["model_first", "dut_first", "parallel"]))
    else:
        out["who"] = ["", draw(st.sampled_from(FUNCS))]
    if kind == "func":
        out["arg"] = draw(st.sampled_from(["plain", "agent", "other-agent"] + ["env-agent"] * 2))
        out["agent"] = draw(st.sampled_from(agents))
    if kind == "nested":
        out["block"] = draw(block(depth - 1, agents))
    return out


@st.composite
def block(draw, depth, agents):
    low, high, one = 0 if depth else 1, 5, call(depth, agents)
    n = draw(sizes(0, 34, one_in=14))
    if n:
        # many groups, or many calls in one or two groups
        low, high = n - 1, n
        names = draw(st.sampled_from([("g",), ("g", "h"), (None, "g"), tuple(range(n)), (None,)]))
        one = call(0, agents, tuple(f"g{x}" if isinstance(x, int) else x for x in names))
    calls = draw(st.lists(one, min_size=low, max_size=high))
    if n and len(names) == n and draw(st.booleans()):
        # every call in a group of its own
        for i, c in enumerate(calls):
            c["group"] = f"g{i}"
    return {
        "exit": draw(st.sampled_from(["all", "all", "default", "any", "none"])),
        "calls": calls,
        "lag": draw(st.sampled_from([0, 0, 1, 2])),
        "wait": draw(st.integers(0, 3)) > 0,
        "again": draw(st.integers(0, 4)) == 0,
        "gap": draw(st.sampled_from([0, 0, 1, 4])),
    }


@st.composite
def plan(draw):
    agents = ["a", "b", "a2", "free"]
    blocks = draw(st.lists(block(draw(st.integers(0, 2)), agents), min_size=1, max_size=3))
    n = [0]

    def number(b):
        # "any" without any group has no group to wait for
        if b["exit"] == "any" and not b["calls"]:
            b["exit"] = "all"
        for c in b["calls"]:
            n[0] += 1
            c["uid"] = n[0]
            if c["kind"] == "nested":
                number(c["block"])

    for b in blocks:
        number(b)
    return {"blocks": blocks, "handle": draw(st.booleans())}


def group_name(c):
    if c["group"] is not None:
        return c["group"]
    if c["kind"] == "driver":
        agent, method = c["who"]
        # "a2" is agent "a" of a second env, "free" an agent without env
        return {"a": f"a.{method}", "b": f"b.{method}", "a2": f"a.{method}", "free": method}[agent]
    return c["who"][1]


def groups(b):
    out = {}
    for c in b["calls"]:
        out.setdefault(group_name(c), []).append(c)
    return out


class Forecast:
    """Start and end cycle of every call, end of every block, results."""

    def __init__(self):
        self.start, self.end, self.results, self.left = {}, {}, {}, {}
        self.last = 0

    def block(self, b, t, key):
        """Runs block b from cycle t; returns the cycle in which the code after it goes on."""
        t += sum(c["lag"] for c in b["calls"]) + b["lag"]
        ends, results = [], {}
        for name, calls in groups(b).items():
            cyc = t
            values = []
            for c in calls:
                cyc = self.call(c, cyc)
                values.append(VALUES[c["value"]])
            results[name] = values[0] if len(values) == 1 else values
            ends.append(cyc)
        leave = b["exit"]
        if leave in ("all", "default"):
            now = max(ends, default=t)
        elif leave == "any":
            now = min(ends, default=t)
        else:
            now = t
        self.left[key] = now
        now += b["gap"]
        if b["wait"]:
            now = max([now] + ends)
        complete = b["wait"] or leave in ("all", "default")
        self.results[key] = results if complete else None
        self.last = max([self.last] + ends)
        return now

    def call(self, c, t):
        self.start[c["uid"]] = t
        if c["kind"] == "nested":
            t = self.block(c["block"], t, f"in {c['uid']}")
        t += c["dur"]
        self.end[c["uid"]] = t
        return t


def execute(p):
    """Runs the program; returns (observed, forecast)."""
    import toffee
    from toffee import Agent, Env, driver_method

    from . import bspec

    dut = bspec.make_dut(["a"], max_steps=2500)
    seen = {"start": [], "end": [], "left": {}, "results": {}, "early": {}}
    objs = {}

    class Ag(Agent):
        @driver_method()
        async def d(self, uid, dur, value):
            return await body(uid, dur, value)

        @driver_method()
        async def send(self, uid, dur, value):
            return await body(uid, dur, value)

        async def plain(self, uid, dur, value):
            return await body(uid, dur, value)

    async def body(uid, dur, value):
        seen["start"].append((uid, dut.cycles))
        if dur:
            await toffee.ClockCycles(dut, dur)
        seen["end"].append((uid, dut.cycles))
        return VALUES[value]

    class E1(Env):
        def __init__(self, bundle):
            super().__init__()
            self.a = Ag(bundle)
            self.b = Ag(bundle)

    class E2(Env):
        def __init__(self, bundle):
            super().__init__()
            self.a = Ag(bundle)

    def make_func(name, params):
        ns = {}
        exec(
            f"async def {name}({params}):\n    return await body(uid, dur, value)\n",
            {"body": body},
            ns,
        )
        return ns[name]

    class Holder:
        pass

    for name in FUNCS:
        ns = {}
        exec(
            f"async def {name}(self, uid, dur, value):\n    return await body(uid, dur, value)\n",
            {"body": body},
            ns,
        )
        setattr(Holder, name, ns[name])

    def make_nested(c):
        async def inner(block, uid, dur, value):
            seen["start"].append((uid, dut.cycles))
            await run_block(block, f"in {uid}")
            if dur:
                await toffee.ClockCycles(dut, dur)
            seen["end"].append((uid, dut.cycles))
            return VALUES[value]

        inner.__name__ = c["who"][1]
        return inner(c["block"], c["uid"], c["dur"], c["value"])

    def make(c):
        args = (c["uid"], c["dur"], c["value"])
        if c["kind"] == "driver":
            return getattr(objs[c["who"][0]], c["who"][1])(*args)
        if c["kind"] == "nested":
            return make_nested(c)
        if c["kind"] == "method":
            return getattr(Holder(), c["who"][1])(*args)
        name = c["who"][1]
        if c["arg"] == "plain":
            return make_func(name, "uid, dur, value")(*args)
        if c["arg"] == "agent":  # a parameter named agent that is not one
            return make_func(name, "uid, dur, value, agent=3")(*args)
        if c["arg"] == "env-agent":  # a custom function that is given an agent
            return make_func(name, "agent, uid, dur, value")(objs[c["agent"]], *args)
        return make_func(name, "other, uid, dur, value")(objs[c["agent"]], *args)

    async def run_block(b, key):
        kw = {} if b["exit"] == "default" else {"exit": b["exit"]}
        async with toffee.Executor(**kw) as ex:
            for c in b["calls"]:
                how = {"sche_group": c["group"], "priority": c.get("prio")}
                how["sche_order"] = c.get("order")
                ex(make(c), **{k: v for k, v in how.items() if v is not None})
                await toffee.ClockCycles(dut, c["lag"])
            await toffee.ClockCycles(dut, b["lag"])
        seen["left"][key] = dut.cycles
        await toffee.ClockCycles(dut, b["gap"])
        if b["wait"]:
            await ex.wait_all()
            if b["again"]:
                await ex.wait_all()
        if b["wait"] or b["exit"] in ("all", "default"):
            seen["results"][key] = ex.get_results()
        keep.append(ex)

    keep = []

    def handle():
        toffee.start_clock(dut)
        bundle = toffee.Bundle.new_class_from_list(["a"])().bind(dut)
        e1, e2 = E1(bundle), E2(bundle)
        objs.update(a=e1.a, b=e1.b, a2=e2.a, free=Ag(bundle))
        return objs

    fore = Forecast()

    async def test(_=None):
        if _ is None:
            handle()
        now = 0
        for i, b in enumerate(p["blocks"]):
            now = fore.block(b, now, f"block {i}")
            await run_block(b, f"block {i}")
            seen.setdefault("next", []).append((dut.cycles, now))
            now = dut.cycles
        # unfinished groups go on
        if fore.last > dut.cycles:
            await toffee.ClockCycles(dut, fore.last - dut.cycles)

    if p["handle"]:
        toffee.run(test, handle)
    else:
        toffee.run(test)
    return seen, fore


def stats(p):
    """(total calls, parallel groups at most, tags)"""
    tags, most = set(), [0]

    def walk(b, depth):
        tags.add("exit-" + b["exit"])
        tags.add(f"depth-{depth}")
        most[0] = max(most[0], len(groups(b)))
        if any(len(g) > 1 for g in groups(b).values()):
            tags.add("sequence")
        for c in b["calls"]:
            tags.add(c["kind"])
            if c["kind"] == "nested":
                walk(c["block"], depth + 1)

    for b in p["blocks"]:
        walk(b, 0)
    return most[0], tags
