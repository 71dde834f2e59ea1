"""A Delayer returns the value of exactly `delay` samples ago."""

from types import SimpleNamespace

from hypothesis import strategies as st

from lib import bspec
from lib.common import check, quiet, same
from lib.runner import Part
from lib.scale import flags

ID = "A05"
RULE = (
    "A case is pins whose values change with the clock and by tasks and model hooks inside the cycles, "
    "and 1..24 delayers created at generated cycles; every delayer is read in every cycle and compared "
    "with the list of end-of-cycle values. Non-trivial: a delay of at least 1 read after it filled, and "
    "a value changed inside a cycle by a task or a hook."
)
ASSUMPTIONS = ["The value is read after waiting for the clock, i.e. before the samples of that cycle."]
PINS = ["a", "b"]
SOURCES = PINS + ["o"]  # o: an object that is no pin and may hold any value
VALUES = [None, None, 0, 1, "", "x", False, 7]


@st.composite
def plan(draw):
    n = draw(st.one_of(st.integers(2, 14), st.integers(2, 14), st.integers(15, 45)))
    if draw(flags(24)):
        n = draw(st.integers(46, 150))
    m = min(n, 20) + 3

    def wave(values):
        # long waveforms are made of two parts that repeat with periods of their own
        a = draw(st.lists(values, min_size=m, max_size=m))
        return (a + (a[::-1] + a[1:])[2:] * 8)[: n + 3]

    wf = {x: wave(st.integers(0, 5)) for x in PINS}
    wf["o"] = wave(st.sampled_from(VALUES))
    writes = draw(
        st.lists(
            st.tuples(
                st.integers(0, n),
                st.sampled_from(SOURCES),
                st.integers(10, 99),
                st.sampled_from(["task", "yield", "hook", "hook_after", "mon"]),
            ),
            max_size=10,
        )
    )
    delayers = draw(
        st.lists(
            st.tuples(
                st.integers(-1, n),
                st.sampled_from(SOURCES),
                st.one_of(st.integers(0, 5), st.integers(0, 5), st.integers(0, n)),
            ),
            min_size=1,
            max_size=draw(st.sampled_from([5, 5, 5, 24])),
        )
    )
    return {"n": n, "wf": wf, "writes": writes, "delayers": delayers, "via": draw(st.booleans())}


def run(p):
    import toffee
    from toffee import Agent, Env, Model, driver_hook, driver_method

    quiet()
    n, wf = p["n"], p["wf"]

    other = SimpleNamespace(value=wf["o"][0])

    def src(x):
        return other if x == "o" else dut.pin(x)

    def on_step(d):
        for x in PINS:
            if d.cycles < len(wf[x]):
                d.pin(x).xdata.raw = wf[x][d.cycles]
        if d.cycles < len(wf["o"]):
            other.value = wf["o"][d.cycles]

    dut = bspec.make_dut(PINS, on_step=on_step, max_steps=n + 6)
    for x in PINS:
        dut.pin(x).xdata.raw = wf[x][0]
    ds, got = {}, []

    class Ag(Agent):
        @driver_method()
        async def early(self, x, v):
            pass

        @driver_method()
        async def late(self, x, v):
            pass

    class En(Env):
        def __init__(self):
            super().__init__()
            self.bundle = toffee.Bundle.new_class_from_list(PINS)().bind(dut)
            self.ag = Ag(self.bundle)
            self.attach(Mo())

    class Mo(Model):
        @driver_hook(agent_name="ag")
        def early(self, x, v):
            src(x).value = v

        @driver_hook(agent_name="ag", sche_order="dut_first")
        def late(self, x, v):
            src(x).value = v

    env = []

    def create(c):
        for i, (at, x, d) in enumerate(p["delayers"]):
            if at == c:
                pin = getattr(env[0].bundle, x) if p["via"] and x != "o" else src(x)
                ds[i] = toffee.Delayer(pin, d)

    def handle():
        toffee.start_clock(dut)
        env.append(En())
        create(-1)
        return env[0]

    async def test(e):
        for c in range(n + 1):
            same(dut.cycles, c, "cycle")
            got.append({i: d.value for i, d in ds.items()})
            create(c)
            for at, x, v, how in p["writes"]:
                if at != c:
                    continue
                if how == "task":
                    src(x).value = v
                elif how == "yield":
                    await toffee.sleep(0)
                    await toffee.sleep(0)
                    src(x).value = v
                elif how == "hook":
                    await e.ag.early(x, v)
                elif how == "hook_after":
                    await e.ag.late(x, v)
                else:

                    async def delayed(x=x, v=v):
                        for _ in range(4):
                            await toffee.sleep(0)
                        src(x).value = v

                    t = toffee.create_task(delayed())
                    await t
            if c < n:
                await toffee.ClockCycles(dut, 1)

    toffee.run(test, handle)
    got.append({i: d.value for i, d in ds.items()})

    # ---- reference: value of each pin at the end of each cycle
    end = {x: [] for x in SOURCES}
    inner = False
    for c in range(n + 1):
        cur = {x: wf[x][c] for x in SOURCES}
        late = {}
        for at, x, v, how in p["writes"]:
            if at == c:
                inner = True
                if how == "hook_after":
                    late.setdefault(x, []).append(v)
                else:
                    cur[x] = v
        for x in SOURCES:
            vals = {cur[x]} | set(late.get(x, []))
            end[x].append((cur[x], late.get(x), vals))
    tags, deep = set(), False
    for c in range(n + 1):
        for i, v in got[c].items():
            at, x, d = p["delayers"][i]
            first = max(at, 0)
            k = c - 1 - d
            if k < first:
                same(v, None, f"delayer {i} (delay {d}, created in {at}) in cycle {c}")
                tags.add("none")
                continue
            cur, late, vals = end[x][k]
            if late is None:
                same(v, cur, f"delayer {i} (delay {d}, created in {at}) in cycle {c}")
            else:
                # a hook after the driver writes after everything the test awaited before it
                check(any(v is y or v == y for y in vals), "delayer %d has %s, end-of-cycle candidates %s", i, v, vals)
                if len(late) == 1 and sum(1 for w in p["writes"] if w[0] == k and w[1] == x) == 1:
                    same(v, late[0], f"delayer {i} in cycle {c} (hook after the driver)")
                    tags.add("late-hook")
            deep = deep or d >= 1
    # after the run: the latest sample is that of the last cycle, or of the one the run ends with

    def possible(x, k, first):
        if k < first:
            return [None]
        return list(end[x][k][2]) if k <= n else [wf[x][k]]

    for latest in (n, n + 1):
        if all(
            any(v is y or v == y for y in possible(x, latest - d, max(at, 0)))
            for i, v in got[n + 1].items()
            for at, x, d in [p["delayers"][i]]
        ):
            break
    else:
        check(False, "after the run the delayers have %s", got[n + 1])
    tags |= {w[3] for w in p["writes"]}
    return deep and inner, tags


PARTS = [Part("delay", plan, run, 1200)]
