"""Triggers return in the cycle their condition demands."""

from hypothesis import strategies as st

from lib import bspec
from lib.common import check, quiet, same
from lib.runner import Part
from lib.scale import flags, sizes

ID = "A02"
RULE = (
    "A case is generated waveforms (up to 160 cycles) for up to twelve pins and 1..4 concurrent tasks, each starting at a "
    "generated cycle and awaiting a sequence of triggers; the cycle every trigger returns in is compared "
    "with its definition on the waveform. Non-trivial: some trigger waits at least two cycles and "
    "another one still waits at the end or returns at its minimum."
)
ASSUMPTIONS = ["Pins change with the clock only (the stand-in DUT plays the waveform in Step)."]
PINS = list("abcdefghijkl")
BIG = [0, 1, 2, 1 << 32, (1 << 32) + 1, (1 << 64) - 1, 1 << 64, 1 << 100]


@st.composite
def plan(draw):
    long = draw(flags(12))
    n = draw(st.integers(60, 160) if long else st.integers(2, 30))
    style = draw(st.sampled_from([[0, 1], [0, 0, 0, 1], [0, 1, 2, 3], [1, 1, 1, 0], BIG]))
    used = PINS[: draw(sizes(3, 12, 3, 8))]

    def wave():
        out = []
        while len(out) <= n:
            out += [draw(st.sampled_from(style))] * (draw(st.integers(1, 80)) if long else 1)
        return out[: n + 1]

    wf = {x: wave() if x in used else [0] * (n + 1) for x in PINS}
    tasks = []
    for _ in range(draw(st.integers(1, 4))):
        ops = []
        for _ in range(draw(st.integers(1, 4))):
            k = draw(
                st.sampled_from(["clk", "value", "valid", "cond", "change", "rise", "fall", "step"])
            )
            delay = draw(st.sampled_from([None, 0, 1, 2, 3] + [20, 40] * long))
            on = draw(st.sampled_from(["dut", "bundle", "pin", "dut", "bundle", "pin", "clock"]))
            pin = draw(st.sampled_from(used))
            if k in ("clk", "step"):
                ops.append([k, on, draw(st.sampled_from([None, 0, 1, 2, 5] + [33, 64, 100] * long)), pin])
            elif k == "value":
                ops.append([k, pin, draw(st.sampled_from(style + [0, 1, 2, 3])), delay])
            elif k == "valid":
                pins = draw(st.lists(st.sampled_from(used), min_size=1, max_size=len(used), unique=True))
                if len(used) > 5 and draw(st.booleans()):
                    # all but a few of them are up most of the time
                    pins = used
                    for x in used[:-1]:
                        if draw(st.integers(0, 3)):
                            wf[x] = [1] * (n + 1)
                ops.append([k, pins, delay])
            elif k == "cond":
                ops.append([k, on, pin, draw(st.sampled_from(style + [0, 1, 2, 3])), delay])
            else:
                ops.append([k, pin])
        tasks.append({"start": draw(st.integers(0, min(4, n))), "ops": ops})
    names = draw(st.sampled_from([PINS[:3], PINS[:3], ["event", "b", "xdata"], ["value", "event", "mIOType"]]))
    names = names + PINS[3:]
    return {"n": n, "wf": wf, "tasks": tasks, "via": draw(st.booleans()), "names": names}


def first(lo, hi, cond):
    for c in range(lo, hi + 1):
        if cond(c):
            return c
    return None


def expected(wf, n, op, s):
    k = op[0]
    if k in ("clk", "step"):
        return s + (1 if op[2] is None else op[2])
    if k == "value":
        w = wf[op[1]]
        return first(s + (1 if op[3] is None else op[3]), n, lambda c: w[c] == op[2])
    if k == "valid":
        return first(s + (1 if op[2] is None else op[2]), n, lambda c: all(wf[x][c] for x in op[1]))
    if k == "cond":
        w = wf[op[2]]
        return first(s + (1 if op[4] is None else op[4]), n, lambda c: w[c] >= op[3])
    w = wf[op[1]]
    if k == "change":
        return first(s + 1, n, lambda c: w[c] != w[s])
    if k == "rise":
        return first(s + 1, n, lambda c: w[c - 1] == 0 and w[c] != 0)
    return first(s + 1, n, lambda c: w[c - 1] != 0 and w[c] == 0)


def run(p):
    import toffee

    quiet()
    wf, n = p["wf"], p["n"]

    def on_step(d):
        for x in PINS:
            if d.cycles < len(wf[x]):
                d.pin(names[x]).xdata.raw = wf[x][d.cycles]

    # a bundle may have signals of any name, also those of a pin's own attributes
    names = {x: "io_" + y for x, y in zip(PINS, p["names"])}
    dut = bspec.make_dut(list(names.values()), on_step=on_step, max_steps=n + 5)
    for x in PINS:
        dut.pin(names[x]).xdata.raw = wf[x][0]
    bundle = toffee.Bundle.new_class_from_list(list(p["names"])).from_prefix("io_").bind(dut)
    got = []

    class Waitable:
        """A DUT that only offers to wait for its clock."""

        def __getattr__(self, name):
            if name == "event":
                raise AttributeError(name)
            return getattr(dut, name)

        async def wait(self):
            await dut.event.wait()

    clock = Waitable()

    def pin_of(x):
        return bundle[names[x][3:]] if p["via"] else dut.pin(names[x])

    async def task(ti):
        t = p["tasks"][ti]
        await toffee.ClockCycles(dut, t["start"])
        for oi, op in enumerate(t["ops"]):
            k = op[0]
            if k in ("clk", "step"):
                item = {"dut": dut, "clock": clock, "bundle": bundle, "pin": pin_of(op[3])}[op[1]]
                args = [] if op[2] is None else [op[2]]
                if k == "step" or op[1] == "bundle" and oi % 2:
                    await bundle.step(*args)
                else:
                    await toffee.ClockCycles(item, *args)
            elif k == "value":
                kw = {} if op[3] is None else {"delay": op[3]}
                await toffee.Value(pin_of(op[1]), op[2], **kw)
            elif k == "valid":
                kw = {} if op[2] is None else {"delay": op[2]}
                await toffee.AllValid(*[pin_of(x) for x in op[1]], **kw)
            elif k == "cond":
                item = {"dut": dut, "clock": clock, "bundle": bundle, "pin": pin_of(op[2])}[op[1]]
                kw = {} if op[4] is None else {"delay": op[4]}

                def func(it, item=item, op=op):
                    check(it is item, "Condition hands its function another item")
                    pin = it if op[1] == "pin" else getattr(it, names[op[2]][3 * (op[1] == "bundle") :])
                    # any true value counts, as anywhere in Python
                    if op[3] == 0 or oi % 2:
                        return pin.value >= op[3]
                    return pin.value if pin.value >= op[3] else [None, 0, "", []][n % 4]

                await toffee.Condition(item, func, **kw)
            elif k == "change":
                await toffee.Change(pin_of(op[1]))
            elif k == "rise":
                await toffee.RisingEdge(pin_of(op[1]))
            else:
                await toffee.FallingEdge(pin_of(op[1]))
            got.append((ti, oi, dut.cycles))

    async def test():
        toffee.start_clock(dut)
        for ti in range(len(p["tasks"])):
            toffee.create_task(task(ti))
        await toffee.ClockCycles(dut, n)

    toffee.run(test)
    want, tags = [], set()
    waited = edge = False
    for ti, t in enumerate(p["tasks"]):
        s = t["start"]
        for oi, op in enumerate(t["ops"]):
            e = expected(wf, n, op, s)
            tags.add(op[0])
            if e is None or e > n:
                edge = True
                tags.add(op[0] + "-never")
                break
            want.append((ti, oi, e))
            if e - s >= 2 and op[0] not in ("clk", "step"):
                waited = True
                tags.add(op[0] + "-later")
            if e - s <= 1:
                edge = True
            s = e
    got, want = sorted(got), sorted(want)
    for a, b in zip(got, want):
        check(
            a == b,
            "trigger %s of task %d returned in cycle %s, expected %s",
            p["tasks"][b[0]]["ops"][b[1]],
            b[0],
            a,
            b,
        )
    check(len(got) == len(want), "returned triggers %s, expected %s", got, want)
    return waited and edge, tags


PARTS = [Part("waves", plan, run, 3000)]
