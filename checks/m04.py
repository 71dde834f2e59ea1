"""Ports deliver calls in order and drop only when full."""

from hypothesis import strategies as st

from lib import bspec, mspec
from lib.common import Odd, check, quiet, same
from lib.runner import Part
from lib.scale import sizes

ID = "M04"
RULE = (
    "A case is a generated env with up to three models of driver, monitor and agent ports (all naming "
    "forms, sizes 1-40 and unbounded) and a history of driver calls (all argument patterns; awaited, "
    "gathered, executors), monitored values, reads and waiting readers; every port is compared with a "
    "bounded FIFO. Non-trivial: a port dropped a value and was read."
)
ASSUMPTIONS = [
    "At most one monitor has a value in a cycle (the order of monitors within a cycle is unspecified).",
    "A model has no hook for a driver it has a port for.",
]
MON_VALUES = [0, "", False, [], 5, "text", {"k": 0}, (), 1.5, Odd(), float("nan")]


@st.composite
def plan(draw):
    env = draw(mspec.env_spec())
    models = [
        draw(mspec.model_spec(env, hooks=draw(st.booleans()), ports=True, max_members=5))
        for _ in range(draw(sizes(3, 10, 1)))
    ]
    ports = [(i, m["name"]) for i, s in enumerate(models) for m in s["ports"]]
    ops = []
    for _ in range(draw(st.integers(2, 14))):
        k = draw(st.sampled_from(["call"] * 5 + ["clk"] * 3 + (["burst"] + ["read"] * 4 + ["wait"]) * bool(ports)))
        if k == "call":
            ops.append(
                [
                    k,
                    draw(st.sampled_from(["await", "gather", "executor", "task"])),
                    draw(mspec.calls(env, 3)),
                ]
            )
        elif k == "burst":
            # many calls of one driver
            agent, method = draw(st.sampled_from(mspec.drivers(env)))
            n = draw(st.sampled_from([1, 3, 7, 18, 42]))
            ops.append([k, agent, method, n])
        elif k == "clk":
            ops.append([k, draw(st.integers(1, 3))])
        elif k == "read":
            ops.append([k, draw(st.sampled_from(ports)), draw(sizes(3, 50, 1, 6))])
        else:
            ops.append([k, draw(st.sampled_from(ports)), draw(st.integers(0, 4))])
    n_mon = len(mspec.monitors(env))
    emit = draw(
        st.lists(
            st.none()
            | st.tuples(st.integers(0, max(0, n_mon - 1)), st.integers(0, len(MON_VALUES) - 1)),
            max_size=20,
        )
    )
    return {"env": env, "models": models, "ops": ops, "emit": emit if n_mon else []}

freeze = mspec.freeze


def run(p):
    import toffee

    cap = quiet("ERROR")
    dut = bspec.make_dut(["a"], max_steps=300)
    env = p["env"]
    mons = mspec.monitors(env)
    state = {"drops": 0, "reads": 0, "seen": 0}
    ports = {}  # (model, name) -> {"spec", "items", "obj"}

    def emitted(cycle):
        if 1 <= cycle <= len(p["emit"]) and p["emit"][cycle - 1] is not None:
            i, v = p["emit"][cycle - 1]
            return mons[i], MON_VALUES[v]
        return None, None

    async def on_drive(self, method, args):
        return None

    async def on_monitor(self, method):
        who, value = emitted(dut.cycles)
        return value if who == (self.ident[1], method) else None

    def handle():
        toffee.start_clock(dut)
        bundle = toffee.Bundle.new_class_from_list(["a"])().bind(dut)
        agents = mspec.build_agents(env, on_drive, on_monitor)
        obj = mspec.build_env(env, agents, bundle)
        for i, spec in enumerate(p["models"]):
            m = mspec.build_model(spec, env, lambda self, m, args: None)()
            obj.attach(m)
            for port in spec["ports"]:
                ports[i, port["name"]] = {
                    "spec": port,
                    "items": [],
                    "obj": getattr(m, port["name"]),
                    "waiting": 0,
                    "handed": [],
                }
        return obj

    dropped = []
    dicts = []  # argument dictionaries of the calls

    def put(kind, agent, method, single, wrapped):
        """The reference: one event reaches every port that answers for it."""
        for ref in ports.values():
            m = ref["spec"]
            if not mspec.answers(m, kind, agent, method):
                continue
            item = (f"{agent}.{method}", wrapped) if m["kind"] == "agent" else single
            if ref["waiting"] > len(ref["handed"]):
                ref["handed"].append(item)
            elif m["size"] != -1 and len(ref["items"]) >= m["size"]:
                dropped.append(item)
                state["drops"] += 1
            else:
                ref["items"].append(item)

    def called(c):
        sig = mspec.sig_of(env, c["agent"], c["method"])
        args = mspec.bound(sig, c["args"], c["kwargs"])
        single = next(iter(args.values())) if len(args) == 1 else args
        dicts.append(args)
        put("driver", c["agent"], c["method"], single, args)

    def monitored():
        """Brings the reference up to the current cycle (monitors run first in a cycle)."""
        while state["seen"] < dut.cycles:
            state["seen"] += 1
            who, value = emitted(state["seen"])
            if who is not None:
                put("monitor", *who, value, value)

    def reported(where):
        errors = list(cap.of("ERROR"))
        same(len(errors), len(dropped), f"errors about dropped values {where}: {errors}")
        for item in sorted(dropped, key=lambda x: -len(str(x))):
            hit = [e for e in errors if str(item) in e or repr(item) in e]
            check(hit, "no error names the dropped value %r: %s", item, errors)
            errors.remove(hit[0])
        dropped.clear()
        cap.clear()

    readers = []

    async def reader(ref, got):
        got.append(await ref["obj"]())

    async def test(obj):
        for n, op in enumerate(p["ops"]):
            where = f"in step {n} {op[0]}"
            if op[0] == "clk":
                await toffee.ClockCycles(dut, op[1])
                monitored()
            elif op[0] == "burst":
                sig = mspec.sig_of(env, op[1], op[2])
                for i in range(op[3]):
                    values = [1000 * n + i] * mspec.CALLS[sig][0][0]
                    await mspec.call(obj, op[1], op[2], values, {})
                    called({"agent": op[1], "method": op[2], "args": values, "kwargs": {}})
            elif op[0] == "call":
                coros = [
                    mspec.call(obj, c["agent"], c["method"], c["args"], c["kwargs"])
                    for c in op[2]
                ]
                order = op[2]
                if op[1] == "await":
                    for c in coros:
                        await c
                elif op[1] == "gather":
                    await toffee.gather(*coros)
                elif op[1] == "executor":
                    names = [f"{c['agent']}.{c['method']}" for c in op[2]]
                    rank = {x: names.index(x) for x in names}
                    nth = [names[:i].count(x) for i, x in enumerate(names)]
                    # parallel groups start in the order they are named; the calls of
                    # one group follow one another
                    if max(nth) == 0:
                        order = [op[2][i] for i in sorted(range(len(names)), key=lambda i: rank[names[i]])]
                        async with toffee.Executor() as ex:
                            for c in coros:
                                ex(c)
                    else:
                        async with toffee.Executor() as ex:
                            for c in coros:
                                ex(c, sche_group="one")
                else:
                    tasks = [toffee.create_task(c) for c in coros]
                    for t in tasks:
                        await t
                monitored()
                for c in order:
                    called(c)
                # let waiting readers and hooks settle
                await toffee.ClockCycles(dut, 1)
                monitored()
            elif op[0] == "read":
                ref = ports[tuple(op[1])]
                for _ in range(op[2]):
                    same(ref["obj"].qsize(), max(0, len(ref["items"])), f"items {where}")
                    if not ref["items"]:
                        break
                    got = await ref["obj"]()
                    want = ref["items"].pop(0)
                    same(freeze(got), freeze(want), f"item read from {ref['spec']} {where}")
                    # what a reader does with the dictionary concerns no other port
                    inner = zip(got, want) if type(want) is tuple else []
                    for g, w in [(got, want), *inner]:
                        if any(w is x for x in dicts):
                            g.clear()
                    state["reads"] += 1
            else:
                # a reader that waits for the next item
                ref = ports[tuple(op[1])]
                if ref["items"]:
                    continue
                got = []
                ref["waiting"] = 1
                task = toffee.create_task(reader(ref, got))
                await toffee.ClockCycles(dut, 1)
                monitored()
                served = [m for m in mspec.drivers(env) if mspec.answers(ref["spec"], "driver", *m)]
                if op[2] and served and not ref["handed"]:
                    # the test calls a driver
                    agent, method = served[op[2] % len(served)]
                    values = [9000 + n] * mspec.CALLS[mspec.sig_of(env, agent, method)][0][0]
                    await mspec.call(obj, agent, method, values, {})
                    called({"agent": agent, "method": method, "args": values, "kwargs": {}})
                deadline = len(p["emit"]) + 1
                while not ref["handed"] and state["seen"] < deadline:
                    same(got, [], f"item of a reader of an empty port {where}")
                    await toffee.ClockCycles(dut, 1)
                    monitored()
                if ref["handed"]:
                    # in the same cycle, as soon as everything has settled
                    await toffee.ClockCycles(dut, 1)
                    monitored()
                    same(freeze(got), freeze(ref["handed"]), f"item of a reader {where}")
                else:
                    task.cancel()
                    await toffee.ClockCycles(dut, 1)
                    monitored()
                ref["waiting"], ref["handed"] = 0, []
            reported(where)
        for key, ref in ports.items():
            left = []
            while ref["obj"].qsize():
                left.append(await ref["obj"]())
            same(freeze(left), freeze(ref["items"]), f"items left in port {key}")

    toffee.run(test, handle)
    tags = {op[0] for op in p["ops"]} | {op[1] for op in p["ops"] if op[0] == "call"}
    tags |= {f"{r['spec']['kind']}-{r['spec']['form']}" for r in ports.values()}
    if state["drops"]:
        tags.add("drops")
    return state["drops"] > 0 and state["reads"] > 0, tags


PARTS = [Part("ports", plan, run, 2000)]
