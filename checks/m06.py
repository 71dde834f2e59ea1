"""Attaching and unattaching models changes only their own participation."""

from hypothesis import strategies as st

from lib import bspec, mspec
from lib.common import check, quiet, same
from lib.runner import Part
from lib.scale import sizes

ID = "M06"
RULE = (
    "A case is two environments of one generated shape, up to four (rarely ten) models (hooks or ports, some not "
    "fitting) of up to three classes and a history of attach, unattach, move and refused attaches; after "
    "each operation every env gets driver calls and a monitored value, and the hooks that ran and the "
    "items that arrived must be those of the models attached then. Non-trivial: a model was attached "
    "again or moved."
)
ASSUMPTIONS = ["Models are attached and unattached while no driver call is in progress."]


@st.composite
def plan(draw):
    env = draw(mspec.env_spec(sigs=["x"]))
    classes = [
        draw(
            mspec.model_spec(
                env,
                hooks=draw(st.booleans()),
                ports=draw(st.booleans()),
                wrong=draw(st.integers(0, 4)) < 2,
            )
        )
        for _ in range(draw(st.integers(1, 3)))
    ]
    n = draw(sizes(0, 10, one_in=12))
    models = draw(st.lists(st.integers(0, len(classes) - 1), min_size=max(1, n - 1), max_size=max(n, 4)))
    steps = []
    if len(models) > 6 or len(models) > 3 and draw(st.booleans()):
        # all of them attached to one env at first
        e = draw(st.integers(0, 1))
        one = [draw(st.sampled_from(mspec.drivers(env)))]
        steps = [["attach", i, e, one] for i in range(len(models))]
    # now and then many models and a long history
    for _ in range(draw(sizes(9, 30, 2)) if len(models) < 6 else draw(st.integers(8, 30))):
        steps.append(
            [
                draw(st.sampled_from(["attach", "attach", "attach", "unattach", "unattach", "none"])),
                draw(st.integers(0, len(models) - 1)),
                draw(st.integers(0, 1)),
                # without calls several models change at once
                draw(
                    st.lists(
                        st.sampled_from(mspec.drivers(env)),
                        min_size=draw(st.integers(0, 2)) > 0,
                        max_size=2,
                    )
                ),
            ]
        )
    started = []
    if mspec.monitors(env):
        started = draw(
            st.lists(
                st.tuples(st.sampled_from(mspec.monitors(env)), st.integers(0, 1)),
                unique=True,
                max_size=2,
            )
        )
    return {
        "env": env,
        "classes": classes,
        "models": models,
        "steps": steps,
        "started": [[a, m, e] for (a, m), e in started],
    }


def run(p):
    import toffee

    cap = quiet("DEBUG")
    dut = bspec.make_dut(["a"], max_steps=900)
    env = p["env"]
    log = []
    emit = {"at": None}
    again = [False]

    async def on_drive(self, method, args):
        return None

    async def on_monitor(self, method):
        return dut.cycles if emit["at"] == dut.cycles else None

    def on_hook(self, m, args):
        log.append((self.index, m["name"], args.get("name", ""), args.get("item", args.get("x"))))

    def handle():
        toffee.start_clock(dut)
        bundle = toffee.Bundle.new_class_from_list(["a"])().bind(dut)
        agents = mspec.build_agents(env, on_drive, on_monitor)
        return tuple(mspec.build_env(env, agents, bundle, i) for i in range(2))

    def expect(spec, index, kind, path, agent, method, item):
        """What one event leaves in the log of model `index`."""
        out = []
        for m in spec["hooks"] + spec["ports"]:
            if not mspec.answers(m, kind, agent, method):
                continue
            if m["kind"] != "agent":
                out.append((index, m["name"], "", item))
            else:
                wrapped = {"x": item} if kind == "driver" else item
                out.append((index, m["name"], path, wrapped))
        return out

    async def test(*envs):
        classes = [mspec.build_model(c, env, on_hook) for c in p["classes"]]
        models = []
        for i, c in enumerate(p["models"]):
            m = classes[c]()
            m.index = i
            models.append(m)
        # a monitor whose values are also queued for the test case
        for agent, method, e in p["started"]:
            getattr(envs[e], agent).start_monitor(method, 1000)
        where = {}
        was = set()
        for step, (op, i, e, calls) in enumerate(p["steps"]):
            spec = p["classes"][p["models"][i]]
            cap.clear()
            if op == "attach":
                if i in was:
                    again[0] = True
                was.add(i)
                try:
                    envs[e].attach(models[i])
                except ValueError:
                    check(not mspec.fits(env, spec), "attach refused a fitting model")
                    where.pop(i, None)
                else:
                    check(mspec.fits(env, spec), "attach accepted a model that does not fit")
                    where[i] = e
            elif op == "unattach":
                ret = envs[e].unattach(models[i])
                check(ret is envs[e], "unattach() does not return the env")
                if where.get(i) == e:
                    where.pop(i)
                    same(cap.of("ERROR"), [], "errors of unattach")
                else:
                    check(cap.of("ERROR"), "unattaching a model that is not attached is silent")
            for k, m in enumerate(models):
                same(m.is_attached(), k in where, f"is_attached() of model {k}")
            if not calls and step + 1 < len(p["steps"]):
                continue
            log.clear()
            want = []
            for e in range(2):
                for n, (agent, method) in enumerate(calls):
                    item = 1000 + step * 100 + e * 10 + n
                    await mspec.call(envs[e], agent, method, [item], {})
                    for k in where:
                        if where[k] == e:
                            cls = p["classes"][p["models"][k]]
                            path = f"{agent}.{method}"
                            want += expect(cls, k, "driver", path, agent, method, item)
            emit["at"] = dut.cycles + 1
            await toffee.ClockCycles(dut, 2)
            for agent, method in mspec.monitors(env):
                for k in where:
                    cls = p["classes"][p["models"][k]]
                    path = f"{agent}.{method}"
                    want += expect(cls, k, "monitor", path, agent, method, emit["at"])
            for k, m in enumerate(models):
                for port in p["classes"][p["models"][k]]["ports"]:
                    obj = getattr(m, port["name"])
                    while obj.qsize():
                        got = await obj()
                        if port["kind"] == "agent":
                            log.append((k, port["name"], got[0], got[1]))
                        else:
                            log.append((k, port["name"], "", got))
            for x in want:
                same(log.count(x), want.count(x), f"step {step}: number of {x}")
            for x in log:
                check(x in want, "step %d: %s although the model is not attached there", step, x)

    for c in p["classes"]:
        for m in c["ports"]:
            m["size"] = -1
    toffee.run(test, handle)
    tags = {op for op, *_ in p["steps"]}
    if again[0]:
        tags.add("again")
    return again[0], tags


PARTS = [Part("history", plan, run, 1500)]
