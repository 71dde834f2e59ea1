"""A cycle ends only when no task can run any more."""

from hypothesis import strategies as st

from lib import bspec
from lib.common import check, quiet, same
from lib.runner import Part

ID = "A01"
RULE = (
    "A case is a program of 2..8 tasks that wait for the clock, set/pulse/await events, send and receive "
    "on queues, sleep(0), spawn and gather each other; every action is logged with the DUT cycle and "
    "compared with a reference scheduler that settles each cycle completely. Non-trivial: at least "
    "three hand-overs (received items or events, joined tasks) in one cycle. "
    "Part cancel: chains of tasks joining each other end in the cycle in which one of them is cancelled; "
    "non-trivial when a chain has three tasks. Part crowd: up to 120 waiters, nested or parallel tasks, rounds, "
    "hand-overs and cycles, and 360 queued items; non-trivial from ten on."
)
ASSUMPTIONS = [
    "Programs use toffee's Event, Queue, sleep(0), gather, create_task, Task.cancel and triggers only.",
    "Each queue has one reader and one writer and each program runs once, so the cycle of every action "
    "is the same for all interleavings (the reference is run in two orders to confirm it).",
]
HORIZON = 40


@st.composite
def plan(draw):
    n = draw(st.integers(3, 8))
    progs = [[]]
    for i in range(1, n):
        ops = []
        for _ in range(draw(st.integers(0, 4))):
            k = draw(st.sampled_from(["clk", "yield", "mark"]))
            if k == "clk":
                ops.append([k, draw(st.sampled_from([0, 1, 1, 2, 3])), draw(st.integers(0, 3))])
            elif k == "yield":
                ops.append([k, draw(st.integers(1, 5))])
            else:
                ops.append([k])
        progs.append(ops)

    def put_in(i, op):
        progs[i].insert(draw(st.integers(0, len(progs[i]))), op)

    task = st.integers(1, n - 1)
    owners, ne, npu = [], 0, 0
    for _ in range(draw(st.integers(2, 10))):
        k = draw(st.sampled_from(["queue", "queue", "event", "event", "pulse"]))
        i = draw(task)
        if k == "queue":
            j = draw(task)
            if [i, j] not in owners:
                owners.append([i, j])
            q = owners.index([i, j])
            put_in(i, ["put", q, draw(st.integers(0, 9))])
            put_in(j, ["get", q])
        elif k == "event":
            put_in(i, ["set", ne])
            for j in draw(st.lists(task, min_size=1, max_size=3)):
                put_in(j, ["wait", ne])
            ne += 1
        else:
            put_in(i, ["pulse", npu])
            put_in(draw(task), ["pwait", npu])
            npu += 1
    parent = [None] + [draw(st.sampled_from([0, 0, 0] + list(range(i)))) for i in range(1, n)]
    # the test itself waits for nothing but the clock, so that it always ends
    for j in range(1, n):
        i = parent[j]
        if i == 0:
            progs[0].append(["spawn", j, draw(st.booleans())])
            if draw(st.integers(0, 3)) == 0:
                progs[0].append(["clk", 1, 0])
        else:
            last = progs[i][-1] if progs[i] else None
            if last and last[0] == "gather" and draw(st.booleans()):
                last[1].append(j)
            elif draw(st.booleans()):
                put_in(i, ["gather", [j]])
            else:
                put_in(i, ["spawn", j, draw(st.booleans())])
    return {
        "progs": progs,
        "nq": len(owners),
        "ne": ne,
        "np": npu,
        "end": draw(st.integers(0, 10)),
    }


class Reference:
    """Settles every cycle completely; `order` picks the scheduling order."""

    def __init__(self, p, reverse):
        self.p = p
        self.rev = reverse
        self.cycle = 0
        self.log = []
        self.ev = [False] * p["ne"]
        self.q = [[] for _ in range(p["nq"])]
        self.tasks = {}
        self.done = set()
        self.racy = False
        self.pulsed = [set() for _ in range(p["np"])]  # tasks woken by a pulse
        self.pulse_cycle = [None] * p["np"]

    def start(self, i):
        self.tasks[i] = {"pc": 0, "since": None, "until": None}

    def prog(self, i):
        ops = self.p["progs"][i]
        return ops + [["clk", self.p["end"], 0]] if i == 0 else ops

    def step(self, i):
        """One op of task i; True if it progressed."""
        t = self.tasks[i]
        ops = self.prog(i)
        if t["pc"] >= len(ops):
            if i not in self.done:
                self.done.add(i)
                return True
            return False
        op = ops[t["pc"]]
        k = op[0]
        val = None
        if k == "clk":
            if t["until"] is None:
                t["until"] = self.cycle + op[1]
            if self.cycle < t["until"]:
                return False
        elif k == "wait":
            if not self.ev[op[1]]:
                t["since"] = self.cycle if t["since"] is None else t["since"]
                return False
        elif k == "pwait":
            if t["since"] is None:
                t["since"] = self.cycle
                if self.pulse_cycle[op[1]] == self.cycle:
                    self.racy = True
            if not (i in self.pulsed[op[1]]):
                return False
            self.pulsed[op[1]].discard(i)
        elif k == "get":
            if not self.q[op[1]]:
                t["since"] = self.cycle if t["since"] is None else t["since"]
                return False
            val = self.q[op[1]].pop(0)
        elif k == "gather":
            if t["since"] is None:
                t["since"] = self.cycle
                for j in op[1]:
                    self.start(j)
                return True
            if not all(j in self.done for j in op[1]):
                return False
            val = [j * 10 for j in op[1]]
        elif k == "set":
            self.ev[op[1]] = True
        elif k == "pulse":
            self.pulse_cycle[op[1]] = self.cycle
            for j, u in self.tasks.items():
                pc = u["pc"]
                po = self.prog(j)
                if pc < len(po) and po[pc] == ["pwait", op[1]] and u["since"] is not None:
                    if u["since"] == self.cycle:
                        self.racy = True
                    self.pulsed[op[1]].add(j)
        elif k == "put":
            self.q[op[1]].append(op[2])
        elif k == "spawn":
            self.start(op[1])
        self.log.append([self.cycle, i, t["pc"], val])
        t["pc"] += 1
        t["since"] = t["until"] = None
        return True

    def run(self):
        self.start(0)
        while self.cycle <= HORIZON:
            progress = True
            while progress:
                progress = False
                for i in sorted(self.tasks, reverse=self.rev):
                    while self.step(i):
                        progress = True
            if 0 in self.done:
                return True
            self.cycle += 1
        return False


def run(p):
    import toffee

    quiet()
    refs = [Reference(p, False), Reference(p, True)]
    ended = [r.run() for r in refs]
    if not all(ended) or any(r.racy for r in refs):
        return False, ["never-ends" if not all(ended) else "racy"]
    want = sorted(refs[0].log, key=lambda e: e[:3])
    if want != sorted(refs[1].log, key=lambda e: e[:3]):
        raise AssertionError("reference is not confluent")  # harness defect

    dut = bspec.make_dut(["a"], max_steps=HORIZON + 5)
    bundle = toffee.Bundle.new_class_from_list(["a"])().bind(dut)
    log, keep = [], []
    objs = {}

    async def task(i):
        ops = p["progs"][i] if i else p["progs"][0] + [["clk", p["end"], 0]]
        for pc, op in enumerate(ops):
            k, val = op[0], None
            if k == "clk":
                if op[2] == 0:
                    await toffee.ClockCycles(dut, op[1])
                elif op[2] == 1:
                    await bundle.step(op[1])
                elif op[2] == 2:
                    await toffee.ClockCycles(dut.a, op[1])
                else:
                    await toffee.ClockCycles(bundle, op[1])
            elif k == "wait":
                await objs["ev"][op[1]].wait()
            elif k == "pwait":
                await objs["pu"][op[1]].wait()
            elif k == "get":
                val = await objs["q"][op[1]].get()
            elif k == "gather":
                val = await toffee.gather(*[task(j) for j in op[1]])
            elif k == "set":
                objs["ev"][op[1]].set()
            elif k == "pulse":
                objs["pu"][op[1]].set()
                objs["pu"][op[1]].clear()
            elif k == "put":
                await objs["q"][op[1]].put(op[2])
            elif k == "spawn":
                t = toffee.create_task(task(op[1]))
                if op[1] % 3 == 0:  # names mean nothing
                    t.set_name(["main_clock_loop", "loop", "_clock_loop", "main"][pc % 4])
                if op[2]:
                    keep.append(t)
            elif k == "yield":
                for _ in range(op[1]):
                    await toffee.sleep(0)
            log.append([dut.cycles, i, pc, val])
        return i * 10

    async def test():
        toffee.start_clock(dut)
        objs["ev"] = [toffee.Event() for _ in range(p["ne"])]
        objs["pu"] = [toffee.Event() for _ in range(p["np"])]
        objs["q"] = [toffee.Queue() for _ in range(p["nq"])]
        return await task(0)

    same(toffee.run(test), 0, "value of the run")
    got = sorted(log, key=lambda e: e[:3])
    for a, b in zip(got, want):
        check(a == b, "action [cycle, task, step, value] is %s, expected %s", a, b)
    check(
        len(got) == len(want),
        "%d actions, expected %d (first missing or extra: %s)",
        len(got),
        len(want),
        [e for e in want if e not in got][:2] or [e for e in got if e not in want][:2],
    )
    check(
        refs[0].cycle < dut.cycles <= refs[0].cycle + 2,
        "the test ended in cycle %d, the DUT was stepped %d times",
        refs[0].cycle,
        dut.cycles,
    )
    tags = {op[0] for ops in p["progs"] for op in ops}
    per_cycle = {}
    for cyc, i, pc, _ in want:
        if (p["progs"][i] + [["clk"]])[pc][0] in ("get", "wait", "pwait", "gather"):
            per_cycle[cyc] = per_cycle.get(cyc, 0) + 1
    return max(per_cycle.values(), default=0) >= 3, tags


@st.composite
def chain_plan(draw):
    """A long hand-over chain inside one cycle, through mixed primitives."""
    hops = draw(
        st.lists(
            st.tuples(st.sampled_from(["event", "queue", "task", "gather"]), st.integers(0, 4)),
            min_size=3,
            max_size=25,
        )
    )
    return {
        "hops": hops,
        "at": draw(st.integers(0, 3)),
        "rounds": draw(st.integers(1, 3)),
        "shuffle": draw(st.permutations(range(len(hops)))),
    }


def run_chain(p):
    """Task i waits for task i-1's signal, yields a few times and signals task i+1."""
    import toffee

    quiet()
    hops = p["hops"]
    dut = bspec.make_dut(["a"], max_steps=100)
    seen = []

    async def test():
        toffee.start_clock(dut)
        ev = [toffee.Event() for _ in range(len(hops) + 1)]
        qs = [toffee.Queue() for _ in range(len(hops) + 1)]

        async def emit(i, r):
            # signal stage i, in the way stage i listens
            if i < len(hops) and hops[i][0] == "queue":
                await qs[i].put(r)
            else:
                ev[i].set()

        async def inner(i, r):
            for _ in range(hops[i][1]):
                await toffee.sleep(0)
            await emit(i + 1, r)

        async def stage(i):
            for r in range(p["rounds"]):
                if hops[i][0] == "queue":
                    got = await qs[i].get()
                    check(got == r, "stage %d got %s in round %d", i, got, r)
                else:
                    await ev[i].wait()
                    ev[i].clear()
                seen.append((r, i, dut.cycles))
                if hops[i][0] == "task":
                    toffee.create_task(inner(i, r))
                elif hops[i][0] == "gather":
                    await toffee.gather(inner(i, r))
                else:
                    await inner(i, r)

        for i in p["shuffle"]:
            toffee.create_task(stage(i))
        await toffee.ClockCycles(dut, p["at"])
        for r in range(p["rounds"]):
            await emit(0, r)
            await ev[len(hops)].wait()
            ev[len(hops)].clear()
            seen.append((r, len(hops), dut.cycles))
            await toffee.ClockCycles(dut, 1)

    toffee.run(test)
    want = [
        (r, i, p["at"] + r) for r in range(p["rounds"]) for i in range(len(hops) + 1)
    ]
    same(sorted(seen), sorted(want), "(round, stage, cycle) of the chain")
    return True, {h[0] for h in hops}


HOOKS = ["monitor_hook", "agent_mon", "driver_hook", "driver_hook_after", "agent_drv"]


@st.composite
def hook_plan(draw):
    """Model hooks that provide what other tasks wait for."""
    return {
        "hooks": draw(
            st.lists(
                st.tuples(st.sampled_from(HOOKS), st.sampled_from(["event", "queue", "task"])),
                min_size=1,
                max_size=5,
                unique_by=lambda h: h[0],
            )
        ),
        "every": draw(st.integers(1, 3)),
        "calls": draw(st.lists(st.integers(0, 2), max_size=4)),
        "follow": draw(st.booleans()),
        "yields": draw(st.integers(0, 3)),
        "end": draw(st.integers(2, 6)),
    }


def run_hooks(p):
    import toffee
    from toffee import Agent, Env, Model, agent_hook, driver_hook, driver_method
    from toffee import monitor_hook, monitor_method

    quiet()
    dut = bspec.make_dut(["a"], max_steps=100)
    how = dict(p["hooks"])
    given, seen = [], []
    objs = {}

    class Ag(Agent):
        @driver_method()
        async def d(self, n):
            return None

        @monitor_method()
        async def mon(self):
            return dut.cycles if dut.cycles % p["every"] == 0 else None

    class En(Env):
        def __init__(self, bundle):
            super().__init__()
            self.ag = Ag(bundle)

    def provide(name):
        if name not in how:
            return
        given.append((dut.cycles, name))
        if how[name] == "event":
            objs[name].set()
        elif how[name] == "queue":
            objs[name].put_nowait(1)
        else:
            toffee.create_task(note(name))

    async def note(name):
        for _ in range(p["yields"]):
            await toffee.sleep(0)
        seen.append((dut.cycles, name))
        if p["follow"] and name != "driver_hook":
            # a hook asked for by what another hook made possible
            await objs["env"].ag.d(-1)
            seen.append((dut.cycles, "follow"))

    class Mon(Model):
        @monitor_hook("ag.mon")
        def m(self, item):
            provide("monitor_hook")

        @agent_hook(methods=["ag.mon"])
        def a(self, name, item):
            provide("agent_mon")

    class Drv(Model):
        @driver_hook("ag.d")
        def m(self, n):
            if n >= 0:
                provide("driver_hook")

        @agent_hook(methods=["ag.d"])
        def a(self, name, item):
            if item["n"] >= 0:
                provide("agent_drv")

    class After(Model):
        @driver_hook("ag.d", sche_order="dut_first")
        def m(self, n):
            if n >= 0:
                provide("driver_hook_after")

    async def listen(name):
        while True:
            if how[name] == "event":
                await objs[name].wait()
                objs[name].clear()
            else:
                await objs[name].get()
            await note(name)

    async def test():
        toffee.start_clock(dut)
        env = objs["env"] = En(toffee.Bundle.new_class_from_list(["a"])().bind(dut))
        for m in (Mon(), Drv(), After()):
            env.attach(m)
        for name, h in how.items():
            if h != "task":
                objs[name] = toffee.Event() if h == "event" else toffee.Queue()
                toffee.create_task(listen(name))
        for i, clk in enumerate(p["calls"]):
            await env.ag.d(i)
            await toffee.ClockCycles(dut, clk)
        await toffee.ClockCycles(dut, p["end"])

    toffee.run(test)
    def norm(pairs):  # an event set twice before its listener looks is one event
        few = {x for x in pairs if how[x[1]] == "event"}
        return sorted(few) + sorted(x for x in pairs if x not in few)

    same(
        norm([s for s in seen if s[1] != "follow"]),
        norm(given),
        "(cycle, name) of what tasks did with what hooks provided",
    )
    if p["follow"] and "event" not in how.values():
        same(
            sorted(s[0] for s in seen if s[1] == "follow"),
            sorted(g[0] for g in given if g[1] != "driver_hook"),
            "cycles of the calls made because of a hook",
        )
    return bool(given), set(how) | set(how.values())


@st.composite
def call_plan(draw):
    """Calls of hooked drivers with as few other tasks as possible."""
    return {
        "models": draw(st.lists(st.lists(st.sampled_from(["d", "d2", "a", "a2"]), min_size=1, unique=True), min_size=1, max_size=2)),
        "calls": draw(
            st.lists(
                st.tuples(
                    st.sampled_from(["await", "await", "task", "gather", "executor"]),
                    st.lists(st.integers(0, 3), min_size=1, max_size=3),
                    st.integers(0, 2),
                ),
                min_size=1,
                max_size=4,
            )
        ),
        "start": draw(st.integers(0, 2)),
    }


def run_calls(p):
    import toffee
    from toffee import Agent, Env, Executor, Model, agent_hook, driver_hook, driver_method

    quiet()
    dut = bspec.make_dut(["a"], max_steps=200)
    log = []
    objs = {}

    class Ag(Agent):
        @driver_method()
        async def d(self, k, n):
            log.append([k, "start", dut.cycles])
            if n:
                await toffee.ClockCycles(dut, n)
            log.append([k, "end", dut.cycles])
            return 7

    class En(Env):
        def __init__(self, bundle):
            super().__init__()
            self.ag = Ag(bundle)

    def model(i, kinds):
        attrs = {}
        for kind in kinds[:]:
            order = "dut_first" if kind.endswith("2") else "model_first"
            if kind[0] == "d":
                if any(n.startswith("h_d") for n in attrs):
                    continue

                def h(self, k, n, kind=kind):
                    log.append([k, kind + str(i), dut.cycles])

                attrs["h_" + kind] = driver_hook("ag.d", sche_order=order)(h)
            else:

                def h(self, name, item, kind=kind):
                    log.append([item["k"], kind + str(i), dut.cycles])

                attrs["h_" + kind] = agent_hook(methods=["ag.d"], sche_order=order)(h)
        return type("M", (Model,), attrs)(), [n[2:] + str(i) for n in attrs]

    want = []

    async def test():
        toffee.start_clock(dut)
        env = En(toffee.Bundle.new_class_from_list(["a"])().bind(dut))
        hooks = []
        for i, kinds in enumerate(p["models"]):
            m, names = model(i, kinds)
            env.attach(m)
            hooks += names
        if p["start"]:
            await toffee.ClockCycles(dut, p["start"])
        key = 0

        def expect(k, at, n):
            want.append([k, "start", at])
            want.append([k, "end", at + n])
            for h in hooks:
                want.append([k, h, at + n if h[1] == "2" else at])

        for how, ns, gap in p["calls"]:
            at = dut.cycles
            ks = list(range(key, key + len(ns)))
            key += len(ns)
            if how == "await":
                for k, n in zip(ks, ns):
                    expect(k, at, n)
                    same(await env.ag.d(k, n), 7, "value of the call")
                    at += n
                    same(dut.cycles, at, f"cycle in which call {k} returned")
            else:
                for k, n in zip(ks, ns):
                    expect(k, at, n)
                if how == "gather":
                    await toffee.gather(*[env.ag.d(k, n) for k, n in zip(ks, ns)])
                elif how == "task":
                    for t in [toffee.create_task(env.ag.d(k, n)) for k, n in zip(ks, ns)]:
                        await t
                else:
                    async with Executor() as ex:
                        for k, n in zip(ks, ns):
                            ex(env.ag.d(k, n), sche_group=str(k))
                at += max(ns)
                same(dut.cycles, at, f"cycle in which the calls {ks} had returned ({how})")
            if gap:
                await toffee.ClockCycles(dut, gap)

    toffee.run(test)
    same(sorted(log), sorted(want), "[call, what, cycle]")
    return bool(want), {c[0] for c in p["calls"]} | {k for m in p["models"] for k in m}


SLEEP = ["event", "queue", "clock", "task", "gather"]


@st.composite
def cancel_plan(draw):
    """Chains of tasks waiting for each other, ended by cancelling one of them."""
    chains = []
    for _ in range(draw(st.integers(1, 3))):
        levels = draw(
            st.lists(
                st.tuples(
                    st.sampled_from(["raise", "raise", "return"]),
                    st.integers(0, 3),
                ),
                min_size=1,
                max_size=5,
            )
        )
        chains.append(
            {
                "sleep": draw(st.sampled_from(SLEEP)),
                "levels": levels,
                "at": draw(st.integers(0, 4)),
                "yields": draw(st.integers(0, 4)),
                "target": draw(st.integers(0, len(levels) - 1)),
                "from_test": draw(st.booleans()),
            }
        )
    return {"chains": chains, "end": draw(st.integers(5, 7))}


def run_cancel(p):
    import asyncio

    import toffee

    quiet()
    dut = bspec.make_dut(["a"], max_steps=60)
    ended = []

    async def test():
        toffee.start_clock(dut)
        never = toffee.Event()
        empty = toffee.Queue()

        async def sleeper(how):
            if how == "event":
                await never.wait()
            elif how == "queue":
                await empty.get()
            elif how == "clock":
                await toffee.ClockCycles(dut, 1000)
            elif how == "task":
                await toffee.create_task(never.wait())
            else:
                await toffee.gather(never.wait())

        async def level(i, k, tasks):
            c = p["chains"][i]
            what, yields = c["levels"][k]
            try:
                if k == 0:
                    await sleeper(c["sleep"])
                else:
                    await tasks[k - 1]
            except asyncio.CancelledError:
                for _ in range(yields):
                    await toffee.sleep(0)
                ended.append((i, k, dut.cycles))
                if what == "raise":
                    raise
            else:
                for _ in range(yields):
                    await toffee.sleep(0)
                ended.append((i, k, dut.cycles))
            return k

        async def killer(c, tasks):
            await toffee.ClockCycles(dut, c["at"] - dut.cycles)
            for _ in range(c["yields"]):
                await toffee.sleep(0)
            tasks[c["target"]].cancel()

        todo = []
        for i, c in enumerate(p["chains"]):
            tasks = []
            for k in range(len(c["levels"])):
                tasks.append(toffee.create_task(level(i, k, tasks)))
            todo.append((c, tasks))
            if not c["from_test"]:
                toffee.create_task(killer(c, tasks))
        while dut.cycles < p["end"]:
            for c, tasks in todo:
                if c["from_test"] and c["at"] == dut.cycles:
                    await toffee.sleep(0)
                    await killer(c, tasks)
            await toffee.ClockCycles(dut, 1)

    toffee.run(test)
    want = sorted(
        (i, k, c["at"]) for i, c in enumerate(p["chains"]) for k in range(len(c["levels"]))
    )
    same(sorted(ended), want, "(chain, task, cycle in which it ended after a task was cancelled)")
    longest = max(len(c["levels"]) for c in p["chains"])
    return longest >= 3, {c["sleep"] for c in p["chains"]} | {f"depth-{longest}"}


@st.composite
def crowd_plan(draw):
    """Many of one thing: waiters, queued items, nested calls, rounds and cycles."""
    n = st.one_of(st.integers(1, 12), st.integers(1, 120))
    kinds = ["waiters", "burst", "nested", "wide", "rounds", "yields", "cycles", "clocked", "ping"]
    return {
        "items": draw(
            st.lists(st.tuples(st.sampled_from(kinds), n, st.integers(0, 3)), min_size=1, max_size=3)
        ),
        "end": draw(st.integers(1, 5)),
    }


def run_crowd(p):
    import toffee

    quiet()
    last = max([1] + [at + n for kind, n, at in p["items"] if kind in ("cycles", "clocked")])
    dut = bspec.make_dut(["a"], max_steps=last + 60)
    log, want = [], []

    class Ag(toffee.Agent):
        @toffee.driver_method()
        async def d(self, k):
            return k

    class En(toffee.Env):
        def __init__(self, bundle):
            super().__init__()
            self.ag = Ag(bundle)

    class Mod(toffee.Model):
        @toffee.driver_hook("ag.d")
        def h(self, k):
            return k

    async def test():
        toffee.start_clock(dut)
        bundle = toffee.Bundle.new_class_from_list(["a"])().bind(dut)
        env = En(bundle).attach(Mod())

        async def item(i, kind, n, at):
            def note(k, cycle):
                log.append((i, k, dut.cycles))
                want.append((i, k, cycle))

            ev, back, q = toffee.Event(), toffee.Event(), toffee.Queue()
            if kind == "waiters":

                async def waiter(k):
                    await ev.wait()
                    note(k, at)

                for k in range(n):
                    toffee.create_task(waiter(k))
                await toffee.ClockCycles(dut, at)
                ev.set()
            elif kind == "burst":
                # everything is queued in the first cycle and read in a later one
                for k in range(3 * n):
                    await q.put(k)
                note("put", 0)
                await toffee.ClockCycles(dut, at)
                for k in range(3 * n):
                    check(await q.get() == k, "item %d of the queue", k)
                note("got", at)
            elif kind == "nested":

                async def call(k):
                    if k:
                        await (toffee.create_task(call(k - 1)) if k % 2 else toffee.gather(call(k - 1)))
                    else:
                        await toffee.ClockCycles(dut, at)
                    note(k, at)

                await call(n // 2)
            elif kind == "wide":

                async def part(k):
                    await toffee.ClockCycles(dut, at if k % 2 else 0)
                    note(k, at if k % 2 else 0)
                    return k

                got = await toffee.gather(*[part(k) for k in range(n)])
                check(got == list(range(n)), "values of the gathered tasks")
                note("joined", at if n > 1 else 0)
            elif kind == "rounds":
                # each call ends in a round of hooks of its own
                await toffee.ClockCycles(dut, at)
                for k in range(n // 3):
                    same(await env.ag.d(k), k, "value of the call")
                    note(k, at)
            elif kind == "yields":
                await toffee.ClockCycles(dut, at)
                for _ in range(n * 5):
                    await toffee.sleep(0)
                note("slept", at)
            elif kind == "cycles":
                await toffee.ClockCycles([dut, dut.a, bundle][n % 3], at)
                await toffee.ClockCycles([bundle, dut, dut.a][n % 3], n)
                note("waited", at + n)
            elif kind == "clocked":
                for k in range(at + n):
                    note(k, k)
                    await bundle.step()
            else:

                async def pong():
                    for _ in range(n):
                        await ev.wait()
                        ev.clear()
                        back.set()

                toffee.create_task(pong())
                await toffee.ClockCycles(dut, at)
                for k in range(n):
                    ev.set()
                    await back.wait()
                    back.clear()
                    note(k, at)

        tasks = [toffee.create_task(item(i, *x)) for i, x in enumerate(p["items"])]
        for t in tasks:
            await t
        await toffee.ClockCycles(dut, 5)
        expected = sum(
            {
                "waiters": n, "burst": 2, "nested": n // 2 + 1, "wide": n + 1, "rounds": n // 3,
                "yields": 1, "cycles": 1, "clocked": at + n, "ping": n,
            }[kind]
            for kind, n, at in p["items"]
        )
        same(len(log), expected, "number of actions")

    toffee.run(test)
    same(log, want, "(item, step, cycle)")
    return max(n for _, n, _ in p["items"]) >= 10, {x[0] for x in p["items"]}


PARTS = [
    Part("crowd", crowd_plan, run_crowd, 300),
    Part("calls", call_plan, run_calls, 600),
    Part("program", plan, run, 4000),
    Part("chain", chain_plan, run_chain, 400),
    Part("hooks", hook_plan, run_hooks, 800),
    Part("cancel", cancel_plan, run_cancel, 500),
]
