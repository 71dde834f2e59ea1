"""Generated agents, environments and reference models, and an independent account of
which hook or port of a model answers for which method.

env    {"classes": [{"drivers": [[name, sig]], "monitors": [name], "parent": bool}],
        "agents": [[name, class]], "split": n}
model  {"hooks": [{"kind": "driver"|"monitor"|"agent", "form", ..., "prio", "order"}],
        "ports": [{"kind", "form", ..., "size"}]}
Driver and monitor hooks/ports name one method by "form":
    path (positional), both (agent_name + driver_name), agent (agent_name + own name),
    func (own name, double underscore).
Agent hooks/ports have "form" func (own name) | name, and optional "agents", "methods".
"""

import inspect

from hypothesis import strategies as st

from lib import bspec
from lib.common import Odd, Violation
from lib.scale import flags

AGENTS = ["a", "b", "ab", "a_b", "agent1", "agent10", "port", "Ag", "A", "_p"]
METHODS = ["d", "e", "send", "d_e", "b", "push", "pop", "D", "Send", "_d"]
MONITORS = ["m", "n", "mon", "sum_m"]
SIGS = [
    "",
    "x",
    "x, y",
    "x, y=3",
    "x, *, k=7",
    "*args",
    "x, **kw",
    "x=None, y=(1, 2)",
    "x, *args, k=0, **kw",
    "agent, data",
    "x, /, y",
    "name, item",
    "x, **kwargs",
    "*a, **kwargs",
    "x, y, z, u, v=5",
]
ORDERS = ["model_first", "dut_first"]


def bound(sig, args, kwargs):
    """The arguments as a dictionary, defaults included, by Python's own rules."""
    ns = {}
    exec(f"def f({sig}): return dict(locals())", ns)
    got = ns["f"](*args, **kwargs)
    return {k: got[k] for k in inspect.signature(ns["f"]).parameters}


def freeze(x):
    """Text of a value in which the order of dictionary keys does not show."""
    if isinstance(x, dict):
        return "{" + ", ".join(f"{k}: {freeze(v)}" for k, v in sorted(x.items())) + "}"
    if isinstance(x, (list, tuple)):
        return type(x).__name__ + "(" + ", ".join(map(freeze, x)) + ")"
    return repr(x)


# call forms that are valid for each signature: (n positional, keyword names)
CALLS = {
    "": [(0, [])],
    "x": [(1, []), (0, ["x"])],
    "x, y": [(2, []), (1, ["y"]), (0, ["y", "x"])],
    "x, y=3": [(2, []), (1, []), (1, ["y"]), (0, ["x"]), (0, ["y", "x"])],
    "x, *, k=7": [(1, []), (1, ["k"]), (0, ["k", "x"])],
    "*args": [(0, []), (1, []), (3, []), (7, [])],
    "x, **kw": [(1, []), (1, ["z"]), (0, ["x", "z"]), (1, ["args", "kw"])],
    "x=None, y=(1, 2)": [(0, []), (1, []), (0, ["y"]), (2, [])],
    "x, *args, k=0, **kw": [(1, []), (3, []), (2, ["k"]), (1, ["z", "k"])],
    "agent, data": [(2, []), (0, ["agent", "data"]), (1, ["data"])],
    "x, /, y": [(2, []), (1, ["y"])],
    "name, item": [(2, []), (0, ["item", "name"])],
    "x, **kwargs": [(1, []), (1, ["z"]), (0, ["x", "z"]), (1, ["kwargs", "args"])],
    "x, y, z, u, v=5": [(4, []), (5, []), (2, ["u", "v", "z"])],
    "*a, **kwargs": [(0, []), (2, []), (1, ["z"]), (0, ["kwargs"])],
}


# ---------------------------------------------------------------- generation


@st.composite
def env_spec(draw, monitors=True, sigs=SIGS, max_agents=3):
    classes = []
    # now and then an env of many agents with many methods
    ample = draw(flags(14))
    for _ in range(draw(st.integers(1, 2))):
        ds = draw(
            st.lists(
                st.sampled_from(METHODS),
                min_size=3 if ample else 1,
                max_size=len(METHODS) if ample else 3,
                unique=True,
            )
        )
        ms = []
        if monitors:
            ms = draw(
                st.lists(st.sampled_from(MONITORS), max_size=4 if ample else 2, unique=True)
            )
        classes.append(
            {
                "drivers": [[d, draw(st.sampled_from(sigs))] for d in ds],
                "monitors": ms,
                "parent": draw(st.booleans()),
                # the derived class overrides methods of its base, calling them, or hooks
                "over": draw(st.integers(0, 3)) == 0,
            }
        )
    if ample:
        max_agents = len(AGENTS)
    names = draw(
        st.lists(
            st.sampled_from(AGENTS),
            min_size=max_agents // 2 if ample else 1,
            max_size=max_agents,
            unique=True,
        )
    )
    return {
        "classes": classes,
        "agents": [[n, draw(st.integers(0, len(classes) - 1))] for n in names],
        "split": draw(st.integers(0, len(names))),
        # agents made from the bundle's step instead of the bundle
        "stepper": draw(st.integers(0, 5)) == 0,
        "ample": ample,
        # properties without a value yet, attributes that are no methods
        "extras": draw(st.integers(0, 3)) == 0,
    }


def drivers(env):
    return [(a, d) for a, c in env["agents"] for d, _ in env["classes"][c]["drivers"]]


def monitors(env):
    return [(a, m) for a, c in env["agents"] for m in env["classes"][c]["monitors"]]


def sig_of(env, agent, method):
    cls = dict(env["agents"])[agent]
    return dict(env["classes"][cls]["drivers"])[method]


@st.composite
def member(draw, env, kind, port=False, wrong=False):
    """One hook or port; with `wrong` it may name what the env does not have."""
    out = {"kind": kind}
    if kind in ("driver", "monitor"):
        pool = drivers(env) if kind == "driver" else monitors(env)
        if wrong and draw(st.integers(0, 4)) == 0:
            pool = [(a, m) for a in AGENTS + ["nope"] for m in METHODS + MONITORS]
        agent, method = draw(st.sampled_from(pool))
        out["form"] = draw(st.sampled_from(["path", "both", "agent", "func"]))
        if wrong and draw(st.integers(0, 11)) == 0:
            out["form"] = "bare"  # own name without an agent
        out["agent"], out["method"] = agent, method
    else:
        agents = [a for a, _ in env["agents"]]
        paths = [f"{a}.{m}" for a, m in drivers(env) + monitors(env)]
        if wrong and draw(st.integers(0, 4)) == 0:
            agents = agents + AGENTS + ["nope", "bundle", "helper"]
        if wrong and draw(st.integers(0, 4)) == 0:
            paths = paths + [f"{a}.{m}" for a in AGENTS for m in METHODS]
        form = draw(st.sampled_from(["func", "name", "agents", "methods", "mixed", "mixed"]))
        out["form"] = "list"
        out["agent"], out["agents"], out["methods"] = "", [], []
        if form in ("func", "name"):
            out["form"] = form
            out["agent"] = draw(st.sampled_from(agents))
            if form == "name" and draw(st.booleans()):
                out["methods"] = draw(st.lists(st.sampled_from(paths), min_size=1, max_size=2))
        many = env.get("ample")
        if form in ("agents", "mixed"):
            out["agents"] = draw(st.lists(st.sampled_from(agents), min_size=1, max_size=7 if many else 2))
        if form in ("methods", "mixed"):
            out["methods"] = draw(st.lists(st.sampled_from(paths), min_size=1, max_size=9 if many else 3))
    if port:
        out["size"] = draw(st.sampled_from([-1, 1, 2, 3, 4] * 3 + [17, 20, 40]))
    else:
        out["prio"] = draw(st.sampled_from([None, None, 0, 1, 2, 9, 10, 50, 98, 99]))
        out["order"] = draw(st.sampled_from([None, "model_first", "dut_first"]))
    return out


def covers(m, agent, method):
    """Does this agent hook or port cover the method?"""
    return agent == m["agent"] or agent in m["agents"] or f"{agent}.{method}" in m["methods"]


def answers(m, kind, agent, method):
    """Does this hook or port answer for the (driver or monitor) method?"""
    if m["kind"] == "agent":
        return covers(m, agent, method)
    return m["kind"] == kind and (m["agent"], m["method"]) == (agent, method)


def fits(env, model):
    """Does everything the model names exist in the environment?"""
    agents = [a for a, _ in env["agents"]]
    for m in model["hooks"] + model["ports"]:
        if m["kind"] == "agent":
            if any(a not in agents for a in m["agents"] + [m["agent"]] if a != ""):
                return False
            paths = [f"{a}.{x}" for a, x in drivers(env) + monitors(env)]
            if any(x not in paths for x in m["methods"]):
                return False
        elif m["form"] == "bare":
            return False
        elif (m["agent"], m["method"]) not in (
            drivers(env) if m["kind"] == "driver" else monitors(env)
        ):
            return False
    return True


def corrupt(draw, env, m):
    """Changes one thing in a member, so that it may name something missing."""
    agents = st.sampled_from([a for a, _ in env["agents"]] + ["nope", "helper", "", "a"])
    names = st.sampled_from(METHODS + MONITORS + ["nope", ""])
    if m["kind"] != "agent":
        k = draw(st.sampled_from(["agent", "method", "bare"]))
        if k == "bare":
            m["form"] = "bare"
        elif k == "agent":
            m["agent"] = draw(agents.filter(bool))
        else:
            m["method"] = draw(names.filter(bool))
        return
    k = draw(st.sampled_from(["agents", "methods", "agent"]))
    if k == "methods":
        m["methods"].append(f"{draw(agents)}.{draw(names)}")
        if m["form"] == "func":  # with methods, the function's name says nothing
            m["form"] = "name"
    elif k == "agents" and m["form"] == "list":
        m["agents"].append(draw(agents.filter(bool)))
    else:
        # a name next to lists of methods is allowed, next to agents it is not
        m.update(form="name", agents=[], agent=draw(agents.filter(bool)))
        if draw(st.booleans()) and not m["methods"]:
            a, d = draw(st.sampled_from(drivers(env)))
            m["methods"] = [f"{a}.{d}"]


@st.composite
def model_spec(draw, env, hooks=True, ports=False, max_members=4, wrong=False, both=False):
    """With `both` a method may have a port and hooks in one model."""
    kinds = ["driver", "agent"] + (["monitor"] if monitors(env) or wrong else [])
    out = {"hooks": [], "ports": []}
    if env.get("ample"):
        max_members *= 4
    for _ in range(draw(st.integers(0 if wrong else 1, max_members))):
        port = ports and (not hooks or draw(st.booleans()))
        kind = draw(st.sampled_from(kinds))
        if kind == "monitor" and not monitors(env):
            kind = "driver"
        m = draw(member(env, kind, port, wrong))
        # one hook (port) per method and model, and for a driver not both
        same = out["ports"] if port else out["hooks"]
        if kind != "agent" and any(
            o["kind"] == kind and (o["agent"], o["method"]) == (m["agent"], m["method"])
            for o in same
        ):
            continue
        other = out["hooks"] if port else out["ports"]
        if not both and any(
            answers(m, "driver", a, d) and any(answers(o, "driver", a, d) for o in other)
            for a, d in drivers(env)
        ):
            continue
        same.append(m)
    if wrong and out["hooks"] + out["ports"] and draw(st.booleans()):
        m = draw(st.sampled_from(out["hooks"] + out["ports"]))
        corrupt(draw, env, m)
        same = out["ports"] if "size" in m else out["hooks"]
        if m["kind"] != "agent" and any(
            o is not m and all(o[k] == m[k] for k in ("kind", "agent", "method")) for o in same
        ):
            m["method"] = "nope"
        other = out["hooks"] if same is out["ports"] else out["ports"]
        if not both:
            # still not both for one driver
            other[:] = [
                o
                for o in other
                if not any(
                    answers(m, "driver", a, d) and answers(o, "driver", a, d)
                    for a, d in drivers(env)
                )
            ]
    assign_names(out)
    out["split"] = draw(st.sampled_from([None, None, 0, 1, 2]))
    return out


def natural_name(m):
    if m["kind"] == "agent":
        return m["agent"] if m["form"] == "func" else None
    if m["form"] == "agent":
        return m["method"]
    if m["form"] == "func":
        return f"{m['agent']}__{m['method']}"
    if m["form"] == "bare":
        return m["method"]
    return None


def assign_names(model):
    """Attribute names of the members; the form changes when two would share a name."""
    used = set()
    members = model["hooks"] + model["ports"]
    for i, m in enumerate(members):
        name = natural_name(m)
        if name is None or name in used:
            if name is not None:
                m["form"] = "name" if m["kind"] == "agent" else "path"
            name = [f"c{i}_x", f"z{i}", f"_h{i}", f"Q{i}"][i % 4]
        m["name"] = name
        used.add(name)


# --------------------------------------------------------------- construction


def make_function(name, sig, body, is_async):
    """A method whose body gets (self, dictionary of the bound arguments)."""
    ns = {}
    me = "this" if sig in ("agent, data", "x=None, y=(1, 2)") else "self"
    head, wait = ("async ", "await ") if is_async else ("", "")
    text = f"{head}def {name}({me}, {sig}):\n    _l = dict(locals())\n    _s = _l.pop('{me}')\n    return {wait}_body(_s, _l)\n"
    exec(text, {"_body": body}, ns)
    return ns[name]


def overridden(name):
    """The body of a method of the base class that the derived class overrides."""
    ns = {}
    exec(f"async def {name}(self, *args, **kw):\n    return 'base {name}', args, kw\n", ns)
    return ns[name]


def absent(self):
    """Body of a property without a value."""
    return self.no_such_attribute.value[7]


def build_agents(env, on_drive, on_monitor):
    """Agent classes; on_drive(self, method, args) and on_monitor(self, method) are async."""
    import toffee

    out = []
    for ci, c in enumerate(env["classes"]):
        attrs = {}
        over = c["parent"] and c.get("over")

        async def base_call(self, name, *args, _ci=ci):
            got = await getattr(super(out[_ci], self), name)(*args, k=1)
            if got != (f"base {name}", args, {"k": 1}):
                raise Violation(f"the overridden {name} returned {got}")

        for d, sig in c["drivers"]:

            async def body(self, args, _d=d, _base=base_call, _over=over, _ci=ci):
                if _over and _d in out[_ci].__dict__:
                    await _base(self, _d, "x", 3)
                return await on_drive(self, _d, args)

            attrs[d] = toffee.driver_method()(make_function(d, sig, body, True))
        for m in c["monitors"]:

            async def mbody(self, args, _m=m, _base=base_call, _over=over, _ci=ci):
                if _over and _m in out[_ci].__dict__:
                    await _base(self, _m)
                return await on_monitor(self, _m)

            attrs[m] = toffee.monitor_method()(make_function(m, "", mbody, True))
        if env.get("extras"):
            attrs["all_absent"] = property(absent)
        if c["parent"]:
            # the first methods are inherited
            first = dict(list(attrs.items())[: (len(attrs) + 1) // 2])
            rest = {k: v for k, v in attrs.items() if k not in first}
            if over:
                for k in rest:
                    if k in c["monitors"]:
                        first[k] = toffee.monitor_method()(overridden(k))
                    elif k != "all_absent":
                        first[k] = toffee.driver_method()(overridden(k))
            parent = type(f"Base{ci}", (toffee.Agent,), first)
            out.append(type(f"Ag{ci}", (parent,), rest))
        else:
            out.append(type(f"Ag{ci}", (toffee.Agent,), attrs))
    return out


def build_env(env, classes, bundle, label=0):
    """An environment instance; agents carry ident = (label, name)."""
    import toffee

    spare = None
    if env.get("extras"):
        spare = toffee.Bundle.new_class_from_list(["b"])().bind(bspec.make_dut(["a"])).b

    def add(self, agents):
        for name, c in agents:
            agent = classes[c](bundle.step if env.get("stepper") else bundle)
            agent.ident = (label, name)
            if env.get("extras"):
                agent.spare, agent.table = spare, {"d": agent}
            setattr(self, name, agent)

    class Base(toffee.Env):
        def __init__(self):
            super().__init__()
            self.bundle = bundle
            self.helper = [1]
            add(self, env["agents"][: env["split"]])

        if env.get("extras"):
            all_absent = property(absent)

    if env["split"] == len(env["agents"]):
        return Base()

    class Derived(Base):
        def __init__(self):
            super().__init__()
            add(self, env["agents"][env["split"] :])

    return Derived()


def hook_decorator(m):
    import toffee

    kw = {}
    if m["prio"] is not None:
        kw["priority"] = m["prio"]
    if m["kind"] == "agent":
        if m["order"] is not None:
            kw["sche_order"] = m["order"]
        if m["agents"]:
            kw["agents"] = list(m["agents"])
        if m["methods"]:
            kw["methods"] = list(m["methods"])
        if m["form"] == "name":
            return toffee.agent_hook(m["agent"], **kw)
        return toffee.agent_hook(**kw)
    if m["kind"] == "driver":
        make = toffee.driver_hook
        if m["order"] is not None:
            kw["sche_order"] = m["order"]
    else:
        make = toffee.monitor_hook
    if m["form"] == "path":
        return make(f"{m['agent']}.{m['method']}", **kw)
    if m["form"] == "both":
        return make(agent_name=m["agent"], **{m["kind"] + "_name": m["method"]}, **kw)
    if m["form"] == "agent":
        return make(agent_name=m["agent"], **kw)
    return make(**kw)


def make_port(m):
    import toffee

    if m["kind"] == "agent":
        kw = {"maxsize": m["size"]}
        if m["agents"]:
            kw["agents"] = list(m["agents"])
        if m["methods"]:
            kw["methods"] = list(m["methods"])
        if m["form"] == "name":
            return toffee.AgentPort(m["agent"], **kw)
        return toffee.AgentPort(**kw)
    make = toffee.DriverPort if m["kind"] == "driver" else toffee.MonitorPort
    if m["form"] == "path":
        return make(f"{m['agent']}.{m['method']}", maxsize=m["size"])
    if m["form"] == "both":
        return make(
            agent_name=m["agent"], **{m["kind"] + "_name": m["method"]}, maxsize=m["size"]
        )
    if m["form"] == "agent":
        return make(agent_name=m["agent"], maxsize=m["size"])
    return make(maxsize=m["size"])


def general_class():
    """A model class whose instances get their ports when they are made."""
    import toffee

    class General(toffee.Model):
        def __init__(self, ports):
            super().__init__()
            for m in ports:
                setattr(self, m["name"], make_port(m))

    return General


def build_model(model, env, on_hook, general=None):
    """A model class; on_hook(self, member, args) is called by every hook.

    A model of ports alone may be an instance of the class `general`.

    Driver hooks take the parameters of their driver, args is then the bound
    dictionary; agent hooks get (name, item), monitor hooks (item,)."""
    import toffee

    if general is not None and not model["hooks"]:
        return lambda: general(model["ports"])
    attrs = {}
    for m in model["hooks"]:
        if m["kind"] == "agent":
            sig = "name, item"
        elif m["kind"] == "monitor":
            sig = "item"
        else:
            try:
                sig = sig_of(env, m["agent"], m["method"])
            except KeyError:
                sig = "*args, **kw"

        def body(self, args, _m=m):
            return on_hook(self, _m, args)

        attrs[m["name"]] = hook_decorator(m)(make_function(m["name"], sig, body, False))

    ports, split = model["ports"], model.get("split")

    def add_ports(self, members):
        for m in members:
            setattr(self, m["name"], make_port(m))

    def init(self):
        toffee.Model.__init__(self)
        add_ports(self, ports if split is None else ports[:split])

    if split is None:
        return type("Mod", (toffee.Model,), {**attrs, "__init__": init})

    # the first hooks and ports are inherited
    def derived_init(self):
        super(derived, self).__init__()
        add_ports(self, ports[split:])

    items = list(attrs.items())
    first = dict(items[:split])
    # a hook of the base that the derived class overrides is none
    first.update({k: toffee.driver_hook("no_agent.no_method")(overridden(k)) for k, _ in items[split:]})
    first["all_absent"] = property(absent)
    base = type("BaseMod", (toffee.Model,), {**first, "__init__": init})
    derived = type("Mod", (base,), {**dict(items[split:]), "__init__": derived_init})
    return derived


def odd(x):
    return Odd() if isinstance(x, str) and x == "<odd>" else x


def call(env_obj, agent, method, args, kwargs):
    args = [odd(x) for x in args]
    kwargs = {k: odd(x) for k, x in kwargs.items()}
    return getattr(getattr(env_obj, agent), method)(*args, **kwargs)


@st.composite
def calls(draw, env, max_size=6):
    out = []
    for _ in range(draw(st.integers(1, max_size))):
        agent, method = draw(st.sampled_from(drivers(env)))
        npos, kws = draw(st.sampled_from(CALLS[sig_of(env, agent, method)]))
        vals = st.one_of(st.integers(-2, 5), st.sampled_from(["", "v", None, [1], {"k": 1}, "<odd>"]))
        out.append(
            {
                "agent": agent,
                "method": method,
                "args": [draw(vals) for _ in range(npos)],
                "kwargs": {k: draw(vals) for k in kws},
            }
        )
    return out
