"""attach accepts a model exactly when everything in it matches."""

from hypothesis import strategies as st

from lib import bspec, mspec
from lib.common import check, quiet, same
from lib.runner import Part
from lib.scale import sizes

ID = "M05"
RULE = (
    "A case is one or two generated environments, up to three model classes with hooks and ports some "
    "of which name missing agents or methods (or methods of the other kind), and a sequence of attaches "
    "of new or old instances; attach must raise ValueError exactly when something named is missing. "
    "Non-trivial: both verdicts occur for models with members."
)
ASSUMPTIONS = ["A model has at most one driver (monitor) hook and port per method."]


@st.composite
def plan(draw):
    envs = [draw(mspec.env_spec()) for _ in range(draw(st.integers(1, 2)))]
    classes = [
        draw(mspec.model_spec(draw(st.sampled_from(envs)), hooks=draw(st.integers(0, 4)) > 0, ports=draw(st.booleans()), max_members=draw(sizes(4, 12, 4)), wrong=draw(st.integers(0, 2)) > 0))
        for _ in range(draw(st.integers(1, 3)))
    ]
    steps = draw(
        st.lists(
            st.tuples(
                st.integers(0, len(classes) - 1),
                st.integers(0, len(envs) - 1),
                st.booleans(),  # a new instance
            ),
            min_size=1,
            max_size=8,
        )
    )
    return {"envs": envs, "classes": classes, "steps": steps, "general": draw(st.booleans())}


def run(p):
    import toffee

    quiet()
    verdicts = set()

    async def nothing(self, method, args=None):
        return None

    async def test():
        dut = bspec.make_dut(["a"])
        toffee.start_clock(dut)
        bundle = toffee.Bundle.new_class_from_list(["a"])().bind(dut)
        envs = [
            mspec.build_env(e, mspec.build_agents(e, nothing, nothing), bundle, i)
            for i, e in enumerate(p["envs"])
        ]
        general = mspec.general_class() if p["general"] else None
        classes = [
            mspec.build_model(c, p["envs"][0], lambda self, m, args: None, general)
            for c in p["classes"]
        ]
        last = {}
        for c, e, new in p["steps"]:
            if new or c not in last:
                last[c] = classes[c]()
            model = last[c]
            want = mspec.fits(p["envs"][e], p["classes"][c])
            if p["classes"][c]["hooks"] + p["classes"][c]["ports"]:
                verdicts.add(want)
            try:
                got = envs[e].attach(model)
            except ValueError as exc:
                check(not want, "attach refused a model that fits: %s", exc)
                check(not model.is_attached(), "a refused model says it is attached")
            else:
                check(want, "attach accepted a model that names something missing")
                check(got is envs[e], "attach() does not return the env")
                check(model.is_attached(), "an accepted model says it is not attached")

    toffee.run(test)
    tags = {f"{m['kind']}-{m['form']}" for c in p["classes"] for m in c["hooks"]}
    tags |= {f"port-{m['kind']}-{m['form']}" for c in p["classes"] for m in c["ports"]}
    tags |= {f"fits-{v}" for v in verdicts}
    return len(verdicts) == 2, tags


PARTS = [Part("attach", plan, run, 2500)]
