"""A whole verification environment gives the right verdict about its DUT."""

from hypothesis import strategies as st

from lib import guard
from lib.common import check, quiet, same
from lib.fakedut import FakeDUT, StepBudget
from lib.runner import Part
from lib.scale import sizes

ID = "V01"
RULE = (
    "A case is a complete environment: a simulated DUT of 1..3 (rarely up to 9) pipelines, bundles bound by prefix, regex or "
    "dict, an agent per pipeline, reference models written with driver/agent/monitor hooks, ports and a main or "
    "an in-test check of monitored values, a program of sequential and parallel transactions, and at most one "
    "fault in the DUT. run() must raise exactly when an output that differs from the reference was driven out "
    "or monitored before the run ended. Non-trivial: at least three transactions and a fault, or at least two "
    "pipelines with different kinds of reference."
)
ASSUMPTIONS = [
    "The DUT is a simulated pipeline with picker's pin interface.",
    "What is observable is computed from the DUT's recorded outputs and the program, not from toffee.",
]
STYLES = ["result", "result-agent", "hooks", "agent-hook", "ports", "agent-port", "queue"]
FUNCS = ["add", "xor", "acc", "count"]


@st.composite
def plan(draw):
    lanes = []
    for _ in range(draw(sizes(3, 9, 1))):
        lanes.append(
            {
                "style": draw(st.sampled_from(STYLES)),
                "lat": draw(st.integers(1, 3)),
                "func": draw(st.sampled_from(FUNCS)),
                "bind": draw(st.sampled_from(["prefix", "regex", "dict"])),
                "drive": draw(st.sampled_from(["assign", "attr", "list"])),
                "wait": draw(st.sampled_from(["step", "value", "valid"])),
                "order": draw(st.sampled_from([None, "model_first", "dut_first"])),
                "twice": draw(st.integers(0, 4)) == 0,
            }
        )
    n = len(lanes)
    batches = []
    for _ in range(draw(sizes(5, 24, 1))):
        how = draw(st.sampled_from(["await", "gather", "executor", "executor", "later"]))
        lane = st.integers(0, n - 1)
        which = draw(st.lists(lane, min_size=1, max_size=draw(sizes(4, 12, 4)), unique=how == "gather"))
        batches.append(
            {
                "how": how,
                "calls": [[i, draw(st.integers(0, 255)), draw(st.integers(0, 255))] for i in which],
                "gap": draw(st.sampled_from([0, 0, 1, 2, 5])),
            }
        )
    total = [sum(c[0] == i for b in batches for c in b["calls"]) for i in range(n)]
    fault = None
    if draw(st.integers(0, 3)) > 0:
        i = draw(st.sampled_from([i for i in range(n) if total[i]]))
        kinds = ["value", "value"]
        if not lanes[i]["style"].startswith("result"):
            kinds += ["drop", "extra"]
        fault = {
            "lane": i,
            # the first and the last transaction as well as any other
            "n": draw(st.sampled_from([0, total[i] - 1, draw(st.integers(0, total[i] - 1))])),
            "kind": draw(st.sampled_from(kinds)),
            "bit": draw(st.integers(0, 8)),
        }
    return {
        "lanes": lanes,
        "batches": batches,
        "fault": fault,
        "drain": draw(st.sampled_from([0, 0, 1, 2, 3, 6])),
        "one_model": draw(st.booleans()),
        "handle": draw(st.booleans()),
    }


class Function:
    def __init__(self, name):
        self.name = name
        self.state = 0

    def __call__(self, a, b):
        if self.name == "add":
            return a + b
        if self.name == "xor":
            return a ^ b
        if self.name == "acc":
            self.state = (self.state + a) & 0x1FF
            return self.state
        self.state += 1
        return (self.state * 3 + b) & 0x1FF


def make_dut(p):
    """The DUT; dut.outs[lane] = [(cycle, value)], dut.ins[lane] = [(cycle, a, b)]."""
    pins = {"clk": {}}
    for i in range(len(p["lanes"])):
        for name in ("valid", "a", "b"):
            pins[f"p{i}_{name}"] = {"width": 8}
        for name in ("out_valid", "out"):
            pins[f"p{i}_{name}"] = {"width": 9, "is_out": True}
    lanes = p["lanes"]
    funcs = [Function(l["func"]) for l in lanes]
    pipes = [[None] * l["lat"] for l in lanes]
    fault = p["fault"]

    def on_step(dut):
        for i in range(len(lanes)):
            pin = lambda name: dut.pin(f"p{i}_{name}")
            new = None
            if pin("valid").value:
                a, b = pin("a").value, pin("b").value
                new = funcs[i](a, b)
                hit = fault and fault["lane"] == i and fault["n"] == len(dut.ins[i])
                dut.ins[i].append((dut.cycles, a, b))
                if hit and fault["kind"] == "value":
                    new ^= 1 << fault["bit"]
                elif hit and fault["kind"] == "drop":
                    new = None
                elif hit and fault["kind"] == "extra":
                    dut.again[i] = (dut.cycles + lanes[i]["lat"], new)
            # pipes[i] holds lat values; the oldest is at the output after this step
            pipes[i].append(new)
            pipes[i].pop(0)
            out = pipes[i][0]
            if out is None and dut.again[i] and dut.cycles >= dut.again[i][0]:
                out = dut.again[i][1]
                dut.again[i] = None
            pin("out_valid").xdata.raw = int(out is not None)
            pin("out").xdata.raw = 0 if out is None else out
            if out is not None:
                dut.outs[i].append((dut.cycles, out))

    dut = FakeDUT(pins, on_step=on_step, max_steps=1500)
    n = len(lanes)
    dut.ins, dut.outs, dut.again = [[] for _ in range(n)], [[] for _ in range(n)], [None] * n
    return dut


def lane_bundle(i, lane):
    import toffee
    from toffee import Bundle, Signals, SignalList

    attrs = dict(zip(("valid", "out_valid", "out"), Signals(3)))
    listed = lane["drive"] == "list"
    if listed:
        attrs["ops"] = SignalList("#", 2, lambda k: "ab"[k])
    else:
        attrs.update(zip("ab", Signals(2)))
    cls = type(f"Lane{i}", (Bundle,), attrs)
    if lane["bind"] == "prefix":
        return cls.from_prefix(f"p{i}_")
    if lane["bind"] == "regex":
        return cls.from_regex(rf"^p{i}_(.*)$")
    return cls.from_dict({k: f"p{i}_{k}" for k in ("valid", "out_valid", "out", "a", "b")})


def make_agent(lane):
    import toffee
    from toffee import driver_method, monitor_method

    def drive(b, x, y):
        if lane["drive"] == "assign":
            b.assign({"valid": 1, "a": x, "b": y})
        elif lane["drive"] == "attr":
            b.valid.value, b.a.value, b.b.value = 1, x, y
        else:
            b.assign({"valid": 1, "ops": [x, y]})

    async def send(self, a, b):
        drive(self.bundle, a, b)
        await self.bundle.step()
        self.bundle.valid.value = 0

    async def calc(self, a, b):
        drive(self.bundle, a, b)
        if lane["wait"] == "step":
            await self.bundle.step()
            self.bundle.valid.value = 0
            await self.bundle.step(lane["lat"] - 1)
        else:
            await self.bundle.step()
            self.bundle.valid.value = 0
            if lane["wait"] == "value":
                await toffee.Value(self.bundle.out_valid, 1, delay=0)
            else:
                await toffee.AllValid(self.bundle.out_valid, delay=0)
        return self.bundle.out.value

    async def mon(self):
        if self.bundle.out_valid.value:
            return self.bundle.out.value

    attrs = {"send": driver_method()(send)}
    if lane["style"].startswith("result"):
        attrs = {"calc": driver_method()(calc)}
    else:
        attrs["mon"] = monitor_method()(mon)
    return type("LaneAgent", (toffee.Agent,), attrs)


def model_parts(i, lane, seen):
    """(init(self), class attributes, [main(self)]) of the reference of one lane."""
    import toffee
    from toffee import agent_hook, driver_hook, monitor_hook

    style, attrs, mains = lane["style"], {}, []
    kw = {} if lane["order"] is None else {"sche_order": lane["order"]}
    name = f"l{i}"

    def init(self):
        self.__dict__.setdefault("fun", {})[i] = Function(lane["func"])
        self.__dict__.setdefault("todo", {})[i] = []
        if style == "ports":
            setattr(self, f"in{i}", toffee.DriverPort(f"{name}.send", maxsize=-1))
            setattr(self, f"out{i}", toffee.MonitorPort(agent_name=name, monitor_name="mon", maxsize=-1))
        elif style == "agent-port":
            setattr(self, f"all{i}", toffee.AgentPort(name, maxsize=-1))

    def expect(self, a, b):
        seen.append((id(self), i, a, b))
        return self.fun[i](a, b)

    def compare(self, got):
        assert self.todo[i], "an output nobody asked for"
        want = self.todo[i].pop(0)
        assert got == want, f"got {got}, expected {want}"

    if style == "result":

        def hook(self, a, b):
            return expect(self, a, b)

        attrs[f"{name}__calc"] = driver_hook(f"{name}.calc", **kw)(hook)
    elif style == "result-agent":

        def hook(self, method, args):
            assert method == f"{name}.calc", method
            return expect(self, **args)

        attrs[f"hook{i}"] = agent_hook(name, **kw)(hook)
    elif style == "hooks":

        def hook(self, a, b):
            self.todo[i].append(expect(self, a, b))

        def mhook(self, item):
            compare(self, item)

        attrs[f"d{i}"] = driver_hook(agent_name=name, driver_name="send")(hook)
        attrs[f"m{i}"] = monitor_hook(f"{name}.mon")(mhook)
    elif style == "agent-hook":

        def hook(self, method, item):
            if method == f"{name}.send":
                self.todo[i].append(expect(self, **item))
            else:
                assert method == f"{name}.mon", method
                compare(self, item)

        hook.__name__ = name
        attrs[name] = agent_hook()(hook)
    elif style == "ports":

        async def main(self):
            while True:
                args = await getattr(self, f"in{i}")()
                want = expect(self, **args)
                got = await getattr(self, f"out{i}")()
                assert got == want, f"got {got}, expected {want}"

        mains.append(main)
    elif style == "agent-port":

        async def main(self):
            while True:
                method, item = await getattr(self, f"all{i}")()
                if method == f"{name}.send":
                    self.todo[i].append(expect(self, **item))
                else:
                    compare(self, item)

        mains.append(main)
    return init, attrs, mains


def make_models(p, seen):
    import toffee

    lanes = list(enumerate(p["lanes"]))
    groups = [lanes] if p["one_model"] else [[l] for l in lanes]
    groups += [[l] for l in lanes if l[1]["twice"]]
    out = []
    for group in groups:
        parts = [model_parts(i, lane, seen) for i, lane in group]
        attrs = {}
        for _, a, _ in parts:
            attrs.update(a)

        def init(self, parts=parts):
            toffee.Model.__init__(self)
            for f, _, _ in parts:
                f(self)

        async def main(self, parts=parts):
            await toffee.gather(*[m(self) for _, _, ms in parts for m in ms])

        attrs["__init__"] = init
        attrs["main"] = main
        out.append(type("Reference", (toffee.Model,), attrs)())
    return out, [[i for i, _ in g] for g in groups]


def run(p):
    import toffee

    quiet()
    dut = make_dut(p)
    lanes = p["lanes"]
    seen, state = [], {}

    class LaneEnv(toffee.Env):
        def __init__(self):
            super().__init__()
            for i, lane in enumerate(lanes):
                setattr(self, f"l{i}", make_agent(lane)(lane_bundle(i, lane).bind(dut)))
            state["models"], state["groups"] = make_models(p, seen)
            for m in state["models"]:
                self.attach(m)

    def handle():
        toffee.start_clock(dut)
        return LaneEnv()

    def call(env, c):
        agent = getattr(env, f"l{c[0]}")
        if lanes[c[0]]["style"].startswith("result"):
            return agent.calc(c[1], c[2])
        return agent.send(a=c[1], b=c[2])

    async def program(env):
        queues = [i for i, l in enumerate(lanes) if l["style"] == "queue"]
        for i in queues:
            getattr(env, f"l{i}").start_monitor("mon", 100)
        for b in p["batches"]:
            if b["how"] == "await":
                for c in b["calls"]:
                    await call(env, c)
            elif b["how"] == "gather":
                await toffee.gather(*[call(env, c) for c in b["calls"]])
            else:
                ex = toffee.Executor(exit="none" if b["how"] == "later" else "all")
                async with ex:
                    for c in b["calls"]:
                        ex(call(env, c))
                if b["how"] == "later":
                    await ex.wait_all()
            await toffee.ClockCycles(dut, b["gap"])
        await toffee.ClockCycles(dut, p["drain"])
        got = {}
        for i in queues:
            agent = getattr(env, f"l{i}")
            got[i] = [await agent.mon() for _ in range(agent.monitor_size("mon"))]
        state["end"] = dut.cycles
        for i in queues:
            f = Function(lanes[i]["func"])
            want = [f(c[1], c[2]) for b in p["batches"] for c in b["calls"] if c[0] == i]
            assert got[i] == want[: len(got[i])], f"lane {i}: {got[i]} instead of {want}"
        return "fine"

    async def bare():
        return await program(handle())

    error = None
    try:
        out = toffee.run(program, handle) if p["handle"] else toffee.run(bare)
    except StepBudget:
        check(False, "the run never ends")
    except guard.GuardError as exc:
        check(False, "the run hangs: %s", exc)
    except Exception as exc:
        check(not dut.exhausted, "the run never ends")
        error = exc
    else:
        same(out, "fine", "the value run() returns")

    sent = [
        [tuple(c[1:]) for b in p["batches"] for c in b["calls"] if c[0] == i]
        for i in range(len(lanes))
    ]
    # what the DUT's recorded inputs and outputs say about it
    wrong, maybe = None, False
    for i, lane in enumerate(lanes):
        f = Function(lane["func"])
        every = [f(a, b) for a, b in sent[i]]
        # a request is in the port before the DUT has taken it
        want = every if lane["style"] == "ports" else every[: len(dut.ins[i])]
        end = state.get("end", dut.cycles)
        outs = [(c, v) for c, v in dut.outs[i] if c <= end]
        for k, (c, v) in enumerate(outs):
            asked = sum(1 for ci, _, _ in dut.ins[i] if ci <= c)
            if lane["style"] == "ports" and k >= len(want):
                break  # kept for the next request, which never came
            if k >= asked and lane["style"] not in ("ports", "queue"):
                if k < len(sent[i]) and v == every[k]:
                    # the request driven in this very cycle may already be expected
                    maybe = True
                    break
                wrong = (i, k, c)
            elif k >= len(want) or v != want[k]:
                wrong = (i, k, c)
            if wrong and lane["style"] == "queue" and c == end:
                # the test may read the queue before or after the monitor of its last cycle
                wrong, maybe = None, True
            if wrong:
                break
        if wrong:
            break
    if error is None:
        check(wrong is None, "lane, transaction, cycle %s was wrong, the run passes", wrong)
        for i in range(len(lanes)):
            same([(a, b) for _, a, b in dut.ins[i]], sent[i], f"transactions at the pins of lane {i}")
        for m, group in zip(state["models"], state["groups"]):
            for i in group:
                if lanes[i]["style"] == "queue":
                    continue
                got = [(a, b) for mid, j, a, b in seen if mid == id(m) and j == i]
                if lanes[i]["style"] == "ports":
                    # the main asks for the next request after the output of the last
                    same(got, sent[i][: len(got)], f"requests a model saw on lane {i}")
                else:
                    same(got, sent[i], f"requests a model saw on lane {i}")
    else:
        check(wrong is not None or maybe, "the DUT did nothing wrong, the run fails: %r", error)
    n = sum(len(x) for x in dut.ins)
    tags = {l["style"] for l in lanes} | {"fail" if error else "pass"}
    if p["fault"]:
        tags.add(p["fault"]["kind"] + ("-seen" if wrong else "-unseen"))
    kinds = {l["style"] for i, l in enumerate(lanes) if dut.ins[i]}
    return n >= 3 and (p["fault"] is not None or len(kinds) > 1), tags


PARTS = [Part("verdict", plan, run, 2500)]
