"""Every component's main runs exactly once, from its first clock edge on."""

from hypothesis import strategies as st

from lib import bspec
from lib.common import check, quiet, same
from lib.runner import Part
from lib.scale import sizes

ID = "A06"
RULE = (
    "A case is a set of components and models created before or after start_clock, by the test in a "
    "given cycle or by another component's main, each with a main that waits for the clock, for other "
    "components, or forever; every start and step is logged with the DUT cycle and compared with the "
    "cycles the creation times imply. Non-trivial: at least two components started, in different cycles "
    "or created by different parties."
)
ASSUMPTIONS = [
    "Components are created inside a running event loop (env_handle, the test or a task of the run).",
]


@st.composite
def ops(draw, i):
    out = []
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.sampled_from(["clk", "clk", "yield", "done"]))
        if k == "clk":
            out.append([k, draw(st.sampled_from([0, 1, 1, 2, 3])), draw(st.integers(0, 2))])
        elif k == "yield":
            out.append([k, draw(st.integers(1, 4))])
        elif i:
            out.append([k, draw(st.integers(0, i - 1))])
    return out


@st.composite
def plan(draw):
    comps = []
    for i in range(draw(sizes(6, 25, 1))):
        where = draw(st.sampled_from(["pre", "post", "test", "test", "by"]))
        at = None
        if where == "by" and not i:
            where = "pre"
        if where == "test":
            at = draw(st.integers(0, 5))
        elif where == "by":
            j = draw(st.integers(0, i - 1))
            at = [j, draw(st.integers(0, len(comps[j]["ops"])))]
        comps.append(
            {
                "kind": draw(st.sampled_from(["comp", "comp", "model", "attached", "shared"])),
                "where": where,
                "at": at,
                "ops": draw(ops(i)),
                "loop": draw(st.sampled_from([0, 0, 1, 2])),
                "ret": draw(st.sampled_from([None, None, False, True, 0, 1, "x"])),
            }
        )
    return {
        "comps": comps,
        "handle": draw(st.booleans()),
        "clock": draw(st.integers(0, 9)) > 0,
        "late": draw(st.sampled_from([0, 0, 1, 3, 0, 40, 400])),
        "end": draw(sizes(8, 40)),
    }


def expected(p):
    """Logged steps of every component: [(component, what, cycle)]."""
    never = 10**6
    made, log, done, at_op = {}, [], {}, {}
    for i, c in enumerate(p["comps"]):
        if c["where"] in ("pre", "post"):
            made[i] = 0
        elif c["where"] == "test":
            made[i] = c["at"] if c["at"] <= p["end"] else never
        else:
            j, k = c["at"]
            made[i] = at_op[j, k]
        t = made[i] + 1 if made[i] < never and p["clock"] else never
        log.append((i, "start", t))
        at_op[i, 0] = t
        for k, op in enumerate(c["ops"]):
            if op[0] == "clk":
                t += op[1]
            elif op[0] == "done":
                t = max(t, done[op[1]])
            log.append((i, k, t))
            at_op[i, k + 1] = t
        done[i] = t if t < never else never
        if c["loop"]:
            done[i] = never
            n = 0
            while t < never and t <= p["end"]:
                log.append((i, f"loop{n}", t))
                t += c["loop"]
                n += 1
        else:
            log.append((i, "end", t))
    return [e for e in log if e[2] <= p["end"]]


def run(p):
    import asyncio

    import toffee
    from toffee.asynchronous import Component

    quiet()
    dut = bspec.make_dut(["a"], max_steps=60)
    log = []
    made = []
    state = {}

    async def clock(n, how):
        if how == 0:
            await toffee.ClockCycles(dut.a, n)
        elif how == 1:
            await state["bundle"].step(n)
        else:
            for _ in range(n):
                await dut.event.wait()

    async def body(i):
        c = p["comps"][i]
        log.append((i, "start", dut.cycles))
        create_by(i, 0)
        for k, op in enumerate(c["ops"]):
            if op[0] == "clk":
                await clock(op[1], op[2])
            elif op[0] == "yield":
                for _ in range(op[1]):
                    await toffee.sleep(0)
            else:
                await state["done"][op[1]].wait()
            log.append((i, k, dut.cycles))
            create_by(i, k + 1)
        n = 0
        while c["loop"]:
            log.append((i, f"loop{n}", dut.cycles))
            n += 1
            await toffee.ClockCycles(dut.a, c["loop"])
        log.append((i, "end", dut.cycles))
        state["done"][i].set()
        return c.get("ret")

    class Shared(Component):
        """Components of one class, told apart by an argument."""

        def __init__(self, i):
            super().__init__()
            self.i = i

        async def main(self):
            return await body(self.i)

    class Env(toffee.Env):
        def __init__(self):
            super().__init__()
            self.agent = toffee.Agent(state["bundle"])

    def create(i):
        kind = p["comps"][i]["kind"]
        if kind == "shared":
            obj = Shared(i)
        else:
            base = Component if kind == "comp" else toffee.Model

            async def main(self):
                return await body(i)

            obj = type(f"C{i}", (base,), {"main": main})()
        if kind == "attached":
            state["env"].attach(obj)
        made.append(obj)

    def create_by(j, k):
        for i, c in enumerate(p["comps"]):
            if c["where"] == "by" and c["at"] == [j, k]:
                create(i)

    def create_where(where):
        for i, c in enumerate(p["comps"]):
            if c["where"] == where:
                create(i)

    def prepare():
        state["done"] = [toffee.Event() for _ in p["comps"]]
        state["bundle"] = toffee.Bundle.new_class_from_list(["a"])().bind(dut)
        state["env"] = Env()
        create_where("pre")

    def begin():
        if p["clock"]:
            toffee.start_clock(dut)
        create_where("post")

    def handle():
        prepare()
        begin()
        return ()

    async def test():
        if not p["handle"]:
            prepare()
            for _ in range(p["late"]):
                await asyncio.sleep(0)
            begin()
        if not p["clock"]:
            for i, c in enumerate(p["comps"]):
                if c["where"] == "test":
                    create(i)
            for _ in range(p["end"] + p["late"]):
                await asyncio.sleep(0)
            return "fine"
        for cyc in range(p["end"] + 1):
            for i, c in enumerate(p["comps"]):
                if c["where"] == "test" and c["at"] == cyc:
                    create(i)
            if cyc < p["end"]:
                await toffee.ClockCycles(dut.a, 1)
        return "fine"

    if p["handle"]:
        out = toffee.run(test, handle)
    else:
        out = toffee.run(test)
    same(out, "fine", "the value run() returns")
    if not p["clock"]:
        check(not log, "without a clock %s happened", log[:3])
        return False, ["no-clock"]
    want = expected(p)
    for e in log:
        check(e in want, "component %s did %s in cycle %s", *e)
    for e in want:
        n = log.count(e)
        check(n == 1, "%s (component, step, cycle) happened %d times", e, n)
    order = {}
    for i, what, _ in log:
        order.setdefault(i, []).append(what)
    for i, got in order.items():
        same(got, [e[1] for e in want if e[0] == i], f"steps of component {i}")
    starts = {e[0]: e[2] for e in want if e[1] == "start"}
    tags = {p["comps"][i]["where"] for i in starts} | {p["comps"][i]["kind"] for i in starts}
    parties = {p["comps"][i]["where"] for i in starts}
    return len(starts) > 1 and (len(set(starts.values())) > 1 or len(parties) > 1), tags


PARTS = [Part("mains", plan, run, 2500)]
