"""Each driver call reaches every matching hook exactly once."""

from hypothesis import strategies as st

from lib import bspec, mspec
from lib.common import check, quiet, same
from lib.runner import Part
from lib.scale import sizes

ID = "M01"
RULE = (
    "A case is one or two environments of generated agents (inheritance, shared classes, method names "
    "and signatures), up to four models whose hooks name the methods in every documented form (some "
    "members being ports), and batches of driver calls in all argument patterns, awaited one by one, "
    "gathered or in an Executor. Non-trivial: at least two hooks ran for one call."
)
ASSUMPTIONS = [
    "A model has at most one driver hook and one driver port per method.",
    "A driver hook declares the parameters of its driver.",
]


@st.composite
def inner_calls(draw, env):
    """Calls made by the driver methods: [calling agent, its method, call]."""
    order = [list(x) for x in mspec.drivers(env)]
    out = []
    for i, caller in enumerate(order[1:]):
        if draw(st.integers(0, 5)) == 0:
            c = draw(mspec.calls(env, 1))[0]
            for _ in range(3):
                if [c["agent"], c["method"]] in order[: i + 1]:
                    out.append([*caller, c])
                    break
                c = draw(mspec.calls(env, 1))[0]
    return out


@st.composite
def plan(draw):
    env = draw(mspec.env_spec())
    n_env = draw(st.integers(1, 2))
    classes = draw(
        st.lists(mspec.model_spec(env, ports=draw(st.booleans()), max_members=7, both=draw(st.booleans())), min_size=1, max_size=3)
    )
    models = draw(
        st.lists(
            st.tuples(st.integers(0, len(classes) - 1), st.integers(0, n_env - 1)),
            min_size=1,
            max_size=draw(sizes(4, 9, 4)),
        )
    )
    batches = []
    for _ in range(draw(st.integers(1, 4))):
        batches.append(
            {
                "how": draw(st.sampled_from(["await", "await", "gather", "executor", "task"])),
                "env": draw(st.integers(0, n_env - 1)),
                "calls": draw(mspec.calls(env, 4)),
                "inner": draw(inner_calls(env)),
            }
        )
    return {
        "env": env,
        "n_env": n_env,
        "classes": classes,
        "models": models,
        "batches": batches,
        "handle": draw(st.booleans()),
    }


freeze = mspec.freeze


def run(p):
    import toffee

    quiet()
    dut = bspec.make_dut(["a"], max_steps=300)
    log, results = [], []
    env = p["env"]
    counter = [0]
    returned = []
    inner, inner_results = [], []

    async def on_drive(self, method, args):
        counter[0] += 1
        value = object()
        returned.append(value)
        log.append(("driver", self.ident[0], f"{self.ident[1]}.{method}", freeze(args)))
        await toffee.ClockCycles(dut, counter[0] % 3)
        for agent, name, c in inner:
            if (agent, name) == (self.ident[1], method):
                e = objs["envs"][self.ident[0]]
                inner_results.append(
                    await mspec.call(e, c["agent"], c["method"], c["args"], c["kwargs"])
                )
        return value

    async def on_monitor(self, method):
        return None

    def on_hook(self, m, args):
        if m["kind"] == "agent":
            log.append(("hook", self.index, m["name"], args["name"], freeze(args["item"])))
            # what a hook does with the dictionary concerns no other hook
            if type(args["item"]) is dict:
                args["item"].clear()
        else:
            log.append(("hook", self.index, m["name"], "", freeze(args)))

    objs = {}

    def handle():
        toffee.start_clock(dut)
        bundle = toffee.Bundle.new_class_from_list(["a"])().bind(dut)
        agents = mspec.build_agents(env, on_drive, on_monitor)
        envs = [mspec.build_env(env, agents, bundle, i) for i in range(p["n_env"])]
        classes = [mspec.build_model(c, env, on_hook) for c in p["classes"]]
        models = []
        for i, (c, e) in enumerate(p["models"]):
            m = classes[c]()
            m.index = i
            check(envs[e].attach(m) is envs[e], "attach() does not return the env")
            models.append(m)
        objs.update(envs=envs, models=models)
        return envs

    most, ported = [0], [False]

    def expected(e, c):
        path = f"{c['agent']}.{c['method']}"
        args = mspec.bound(mspec.sig_of(env, c["agent"], c["method"]), c["args"], c["kwargs"])
        out = [("driver", e, path, freeze(args))]
        for i, (cls, where) in enumerate(p["models"]):
            if where != e:
                continue
            if any(
                mspec.answers(m, "driver", c["agent"], c["method"])
                for m in p["classes"][cls]["ports"]
            ):
                # the model takes these calls through its port
                ported[0] = True
                continue
            for h in p["classes"][cls]["hooks"]:
                if h["kind"] == "agent" and mspec.covers(h, c["agent"], c["method"]):
                    out.append(("hook", i, h["name"], path, freeze(args)))
                elif h["kind"] == "driver" and (h["agent"], h["method"]) == (
                    c["agent"],
                    c["method"],
                ):
                    out.append(("hook", i, h["name"], "", freeze(args)))
        most[0] = max(most[0], len(out) - 1)
        for agent, name, sub in inner:
            if (agent, name) == (c["agent"], c["method"]):
                out += expected(e, sub)
        return out

    async def test(envs=None):
        if envs is None:
            envs = handle()
        for b in p["batches"]:
            log.clear()
            returned.clear()
            inner[:] = b["inner"]
            inner_results.clear()
            e = envs[b["env"]]

            def make(c):
                return mspec.call(e, c["agent"], c["method"], c["args"], c["kwargs"])

            got = []
            if b["how"] == "await":
                for c in b["calls"]:
                    got.append(await make(c))
            elif b["how"] == "gather":
                got = await toffee.gather(*[make(c) for c in b["calls"]])
            elif b["how"] == "executor":
                async with toffee.Executor() as ex:
                    for c in b["calls"]:
                        ex(make(c))
                for r in ex.get_results().values():
                    got += r if isinstance(r, list) else [r]
            else:
                tasks = [toffee.create_task(make(c)) for c in b["calls"]]
                for t in tasks:
                    got.append(await t)
            await toffee.ClockCycles(dut, 1)
            want = []
            for c in b["calls"]:
                want += expected(b["env"], c)
            for x in want:
                check(
                    log.count(x) == want.count(x),
                    "%s happened %d times, expected %d",
                    x,
                    log.count(x),
                    want.count(x),
                )
            for x in log:
                check(x in want, "%s happened although nothing asks for it", x)
            same(len(got), len(b["calls"]), "number of results")
            got += inner_results
            check(
                sorted(map(id, got)) == sorted(map(id, returned)),
                "callers got %s, the drivers returned %s",
                got,
                returned,
            )
            if b["how"] == "await" and not inner:
                check(all(x is y for x, y in zip(got, returned)), "results are swapped")
            results.extend(got)
        return "done"

    def wrapped():
        return (handle(),)

    if p["handle"]:
        out = toffee.run(test, wrapped)
    else:
        out = toffee.run(test)
    same(out, "done", "value of the run")
    tags = {b["how"] for b in p["batches"]}
    for c in p["classes"]:
        tags |= {f"{m['kind']}-{m['form']}" for m in c["hooks"]}
        if c["ports"]:
            tags.add("ports")
    if any(b["inner"] for b in p["batches"]):
        tags.add("calls in drivers")
    if ported[0]:
        tags.add("method with a port")
    for b in p["batches"]:
        tags |= {"sig " + mspec.sig_of(env, c["agent"], c["method"]) for c in b["calls"]}
    return most[0] >= 2, tags


PARTS = [Part("calls", plan, run, 1600)]
