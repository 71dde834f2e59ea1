"""Declarations with excluded arguments are refused when made; the others mean what they say."""

from hypothesis import strategies as st

from lib import bspec, mspec
from lib.common import check, quiet, same
from lib.runner import Part

ID = "M08"
RULE = (
    "A case is a list of declarations, each valid or with excluded arguments: hook decorators (each applied "
    "to one to three functions) and ports whose valid ones are then attached and called; calls given to an "
    "Executor; SignalLists, BundleLists, write modes, Delayers and attaches; watch points and operations on "
    "points. Excluded ones must raise at the declaration and change nothing, all others must be accepted and "
    "work as declared. Non-trivial: both verdicts occur."
)
ASSUMPTIONS = [
    "Any exception counts as refusal.",
    "Priorities are integers; scheduling orders that no documentation mentions are refused by hooks only.",
]

ENVS = {
    "classes": [
        {"drivers": [["d", "x"], ["e", "x"]], "monitors": ["m", "n"], "parent": False},
        {"drivers": [["d", "x"], ["send", "x"]], "monitors": ["m"], "parent": False},
    ],
    "agents": [["a", 0], ["b", 1]],
    "split": 2,
}
PRIOS_OK = [None, None, 0, 1, 50, 98, 99]
PRIOS_BAD = [-1, -100, 100, 101, 1000]
ORDERS_OK = [None, None, "model_first", "dut_first"]
ORDERS_BAD = ["", "model", "dutfirst", "Model_first"]


def refused(fn, what, valid):
    """Makes the declaration; its value, or None when it was refused as it should be."""
    try:
        out = fn()
    except Exception as exc:
        check(not valid, "%s was refused: %r", what, exc)
        return None
    check(valid, "%s was accepted", what)
    return out


# ------------------------------------------------------------------ hooks and ports


@st.composite
def declaration(draw, port):
    kind = draw(st.sampled_from(["driver", "monitor", "agent"]))
    agent, other = draw(st.sampled_from(["a", "b"])), draw(st.sampled_from(["a", "b", "nope"]))
    method = draw(st.sampled_from(["d", "e", "send"] if kind != "monitor" else ["m", "n"]))
    kw = {}
    if kind == "agent":
        form = draw(st.sampled_from(["own", "name", "agents", "methods", "both"]))
        if form == "name":
            kw["agent_name"] = agent
        if form in ("agents", "both"):
            kw["agents"] = draw(st.sampled_from([["a"], ["b"], ["a", "b"]]))
        if form in ("methods", "both"):
            kw["methods"] = draw(st.sampled_from([["a.d"], ["b.send", "a.m"], ["a.e", "b.d"]]))
        names = [agent]
    else:
        form = draw(st.sampled_from(["own", "path", "both", "agent"]))
        if form == "path":
            kw[f"{kind}_path"] = f"{agent}.{method}"
        if form in ("both", "agent"):
            kw["agent_name"] = agent
        if form == "both":
            kw[f"{kind}_name"] = method
        names = [f"{agent}__{method}"] if form == "own" else [method]
    # the decorator may be used for more than one function
    for _ in range(0 if port else draw(st.integers(0, 2))):
        a = draw(st.sampled_from(["a", "b"]))
        m = draw(st.sampled_from(["d", "e", "send"] if kind != "monitor" else ["m", "n"]))
        names.append(a if kind == "agent" else f"{a}__{m}" if form == "own" else m)
    valid = True
    if port:
        kw["maxsize"] = draw(st.sampled_from([-1, 1, 2, 3, 7]))
    else:
        prio = draw(st.sampled_from(PRIOS_OK))
        if prio is not None:
            kw["priority"] = prio
        order = draw(st.sampled_from(ORDERS_OK))
        if order is not None and kind != "monitor":
            kw["sche_order"] = order
    if draw(st.booleans()):
        # one excluded argument
        options = ["size"] if port else ["prio", "prio"] + ([] if kind == "monitor" else ["order"])
        if kind != "agent":
            options += ["method alone"] if "agent_name" not in kw and form == "own" else []
            options += ["path too"] if "agent_name" in kw else []
            options += ["name too"] if form == "path" else []
        elif not port and form in ("name", "agents", "both"):
            options += ["name and agents"]
        how = draw(st.sampled_from(options))
        valid = False
        if how == "size":
            kw["maxsize"] = draw(st.sampled_from([0, -2, -3, -100]))
        elif how == "prio":
            kw["priority"] = draw(st.sampled_from(PRIOS_BAD))
        elif how == "order":
            kw["sche_order"] = draw(st.sampled_from(ORDERS_BAD))
        elif how == "method alone":
            kw[f"{kind}_name"] = method
        elif how == "path too":
            kw[f"{kind}_path"] = f"{other}.{method}"
        elif how == "name too":
            which = draw(st.integers(1, 3))
            if which & 1:
                kw["agent_name"] = other
            if which & 2:
                kw[f"{kind}_name"] = method
        else:
            kw["agent_name"], kw["agents"] = other, [agent]
    elif not port and kind != "agent" and "agent_name" not in kw and form == "own" and draw(
        st.integers(0, 3)
    ) == 0:
        # an empty string is the default
        kw["agent_name"] = ""
    return {"kind": kind, "kw": kw, "names": names, "valid": valid}


@st.composite
def members_plan(draw):
    out = []
    for _ in range(draw(st.integers(1, 7))):
        port = draw(st.integers(0, 2)) == 0
        out.append(dict(draw(declaration(port)), port=port))
    calls = [list(draw(st.sampled_from(mspec.drivers(ENVS)))) for _ in range(draw(st.integers(1, 6)))]
    return {"decls": out, "calls": calls}


def targets(d, name):
    """The methods the hook or port answers for, None when there is none of that name."""
    every = {
        "driver": [f"{a}.{m}" for a, m in mspec.drivers(ENVS)],
        "monitor": [f"{a}.{m}" for a, m in mspec.monitors(ENVS)],
    }
    kw, kind = d["kw"], d["kind"]
    if kind == "agent":
        agents = list(kw.get("agents", []))
        if kw.get("agent_name"):
            agents.append(kw["agent_name"])
        if not agents and not kw.get("methods"):
            agents = [name]
        return [
            p
            for p in every["driver"] + every["monitor"]
            if p.split(".")[0] in agents or p in kw.get("methods", [])
        ]
    if kw.get(f"{kind}_path"):
        path = kw[f"{kind}_path"]
    elif kw.get("agent_name"):
        path = kw["agent_name"] + "." + (kw.get(f"{kind}_name") or name)
    else:
        path = name.replace("__", ".")
    return [path] if path in every[kind] else None


def run_members(p):
    import toffee

    quiet()
    dut = bspec.make_dut(["s"], max_steps=100)
    log, ports, expect, made = [], [], [], []
    verdicts, tags = set(), set()

    async def on_drive(self, method, args):
        log.append(("call", f"{self.ident[1]}.{method}", args["x"]))

    async def on_monitor(self, method):
        return f"{self.ident[1]}.{method}@{dut.cycles}"

    async def test():
        toffee.start_clock(dut)
        bundle = toffee.Bundle.new_class_from_list(["s"])().bind(dut)
        env = mspec.build_env(ENVS, mspec.build_agents(ENVS, on_drive, on_monitor), bundle)
        for k, d in enumerate(p["decls"]):
            kind, kw = d["kind"], d["kw"]
            kw = {key: list(v) if isinstance(v, list) else v for key, v in kw.items()}
            what = f"{kind} {'port' if d['port'] else 'hook'} with {kw}"
            verdicts.add(d["valid"])
            if d["port"]:
                cls = {
                    "driver": toffee.DriverPort,
                    "monitor": toffee.MonitorPort,
                    "agent": toffee.AgentPort,
                }[kind]
                members = {d["names"][0]: refused(lambda: cls(**kw), what, d["valid"])}
                if not d["valid"]:
                    continue
            else:
                deco = refused(lambda: getattr(toffee, f"{kind}_hook")(**kw), what, d["valid"])
                if not d["valid"]:
                    continue
                members = []
                for j, name in enumerate(d["names"]):
                    if kind == "driver":

                        def body(self, args, k=k, j=j):
                            log.append(("hook", k, j, args["x"]))

                        fn = mspec.make_function(name, "x", body, False)
                    else:

                        def body(self, args, k=k, j=j):
                            item = args["item"]
                            log.append(("hook", k, j, item if isinstance(item, str) else item["x"]))

                        sig = "item" if kind == "monitor" else "name, item"
                        fn = mspec.make_function(name, sig, body, False)
                    members.append((name, deco(fn)))
                if len(members) > 1:
                    tags.add("decorator used again")
                members = [dict([m]) for m in members]
            # each hook is declared before any of them is attached
            for j, attrs in enumerate([members] if d["port"] else members):
                made.append((k, j, d, attrs, what))
        for k, j, d, attrs, what in made:
            (name,) = attrs
            tgt = targets(d, name)
            if d["port"]:
                model = toffee.Model()
                setattr(model, name, attrs[name])
            else:
                model = type("M", (toffee.Model,), attrs)()
            before = list(env.attached_models)
            refused(lambda: env.attach(model), f"attach of {what} named {name}", tgt is not None)
            same(env.attached_models, before + ([model] if tgt is not None else []), "attached models")
            if tgt is None:
                continue
            if d["port"]:
                ports.append((attrs[name], d, tgt, []))
            else:
                expect.append((k, j, tgt))
        for n, (agent, method) in enumerate(p["calls"]):
            await mspec.call(env, agent, method, [n], {})
        await toffee.ClockCycles(dut, 2)
        for n, (agent, method) in enumerate(p["calls"]):
            path = f"{agent}.{method}"
            for k, j, tgt in expect:
                got = log.count(("hook", k, j, n))
                same(got, int(path in tgt), f"calls of hook {k}.{j} ({tgt}) for {path}")
        for k, j, tgt in expect:
            for agent, method in mspec.monitors(ENVS):
                path = f"{agent}.{method}"
                got = log.count(("hook", k, j, f"{path}@{dut.cycles - 1}"))
                same(got, int(path in tgt), f"calls of hook {k}.{j} ({tgt}) for {path} in one cycle")
        for port, d, tgt, _ in ports:
            size = d["kw"]["maxsize"]
            n = sum(f"{a}.{m}" in tgt for a, m in p["calls"])
            # two values of each monitor have come at least
            m = [f"{a}.{m}" in tgt for a, m in mspec.monitors(ENVS)].count(True)
            if m == 0:
                same(port.qsize(), n if size == -1 else min(n, size), f"items in the port {d['kw']}")
            elif size == -1 or n + m <= size:
                check(port.qsize() >= n + m, "items in the port %s: %d", d["kw"], port.qsize())
            else:
                same(port.qsize(), size, f"items in the port {d['kw']}")
        return "done"

    same(toffee.run(test), "done", "result of run")
    return verdicts == {True, False}, tags | {
        ("valid " if d["valid"] else "refused ") + d["kind"] + (" port" if d["port"] else " hook")
        for d in p["decls"]
    }


# ------------------------------------------------------------------------- executor


@st.composite
def executor_plan(draw):
    blocks = []
    for _ in range(draw(st.integers(1, 3))):
        calls = []
        for _ in range(draw(st.integers(1, 6))):
            driver = draw(st.booleans())
            prio, order = draw(st.sampled_from(PRIOS_OK)), draw(st.sampled_from(ORDERS_OK))
            if not driver and draw(st.booleans()):
                prio = order = None
            if driver and draw(st.integers(0, 2)) == 0:
                prio = draw(st.sampled_from(PRIOS_BAD))
            if order == "model_first" and draw(st.booleans()):
                order = "parallel"
            calls.append(
                {
                    "driver": driver,
                    "name": draw(st.sampled_from(["d", "e"] if driver else ["f", "g", "d"])),
                    "agent": draw(st.sampled_from(["a", "b"])),
                    "prio": prio,
                    "order": order,
                    "group": draw(st.sampled_from([None, None, None, "g", "a.d", ""])),
                    "dur": draw(st.sampled_from([0, 0, 1])),
                }
            )
            if driver and calls[-1]["agent"] == "b" and calls[-1]["name"] == "e":
                calls[-1]["name"] = "send"
        blocks.append({"exit": draw(st.sampled_from(["all", "all", "none", "any", "bad"])), "calls": calls})
    return {"blocks": blocks, "bad": draw(st.sampled_from(["", "ALL", "first", "both", None]))}


def accepted(c):
    if c["prio"] is not None and not 0 <= c["prio"] <= 99:
        return False
    return c["driver"] or (c["prio"] is None and c["order"] is None)


def run_executor(p):
    import toffee

    quiet()
    dut = bspec.make_dut(["s"], max_steps=200)
    started, verdicts, tags = [], set(), set()

    async def work(uid, dur):
        started.append(uid)
        if dur:
            await toffee.ClockCycles(dut, dur)
        return f"r{uid}"

    async def on_drive(self, method, args):
        return await work(*args["x"])

    async def on_monitor(self, method):
        return None

    async def f(x):
        return await work(*x)

    async def g(x):
        return await work(*x)

    async def d(x):
        return await work(*x)

    plain = {"f": f, "g": g, "d": d}

    async def test():
        toffee.start_clock(dut)
        bundle = toffee.Bundle.new_class_from_list(["s"])().bind(dut)
        env = mspec.build_env(ENVS, mspec.build_agents(ENVS, on_drive, on_monitor), bundle)
        uid = 0
        for b in p["blocks"]:
            groups, valid = {}, b["exit"] != "bad"
            exit = p["bad"] if b["exit"] == "bad" else b["exit"]
            if exit == "any" and not any(accepted(c) for c in b["calls"]):
                exit = "all"
            before, ex, raised = list(started), None, False
            try:
                async with toffee.Executor(exit=exit) as ex:
                    for c in b["calls"]:
                        uid += 1
                        if c["driver"]:
                            coro = mspec.call(env, c["agent"], c["name"], [(uid, c["dur"])], {})
                            group = f"{c['agent']}.{c['name']}"
                        else:
                            coro = plain[c["name"]]((uid, c["dur"]))
                            group = c["name"]
                        kw = {}
                        for key, arg in (("prio", "priority"), ("order", "sche_order"), ("group", "sche_group")):
                            if c[key] is not None:
                                kw[arg] = c[key]
                        group = c["group"] if c["group"] is not None else group
                        ok = accepted(c)
                        verdicts.add(ok)
                        refused(lambda: ex(coro, **kw), f"call {c}", ok)
                        if ok:
                            groups.setdefault(group, []).append(uid)
                        else:
                            coro.close()
                            tags.add("refused call")
            except ValueError as exc:
                raised = True
                check(not valid, "exit option %r: %r", exit, exc)
            if not valid:
                check(raised, "exit option %r was accepted", exit)
                same(started, before, "calls started with the exit option refused")
                verdicts.add(False)
                tags.add("refused exit option")
                continue
            await ex.wait_all()
            same(
                sorted(started[len(before) :]),
                sorted(u for us in groups.values() for u in us),
                "calls made",
            )
            want = {
                k: f"r{us[0]}" if len(us) == 1 else [f"r{u}" for u in us] for k, us in groups.items()
            }
            same(ex.get_results(), want, f"results with {b}")
        return "done"

    same(toffee.run(test), "done", "result of run")
    return verdicts == {True, False}, tags


# --------------------------------------------------- bundles, delayers and attaching


@st.composite
def bundle_plan(draw):
    lists = []
    for _ in range(draw(st.integers(0, 3))):
        lists.append(
            {
                "kind": draw(st.sampled_from(["signal", "bundle"])),
                "format": draw(st.sampled_from(["p#", "#_q", "#x#", "#", "", "pq", "p"])),
                "limit": draw(st.sampled_from([1, 2, 3, 12, 1, 2, 0, -1, -5])),
            }
        )
    step = st.one_of(
        st.tuples(st.just("mode"), st.sampled_from(["Imme", "Rise", "Fall"])),
        st.tuples(st.just("mode"), st.sampled_from(["imme", "", 0, 3, "WriteMode.Rise", None])),
        st.tuples(st.just("bind"), st.booleans()),
        st.tuples(st.just("delay"), st.sampled_from([0, 1, 2, 3, -1, -2, -9])),
        st.tuples(st.just("cycle"), st.integers(1, 3)),
        st.tuples(st.just("attach"), st.sampled_from(["model", "class", "other", "none", "env"])),
    )
    return {"lists": lists, "steps": draw(st.lists(step, max_size=12))}


def run_bundle(p):
    import toffee

    quiet()
    verdicts, tags = set(), set()

    for n, x in enumerate(p["lists"]):
        valid = x["limit"] > 0 and "#" in x["format"]
        verdicts.add(valid)
        tags.add(("valid " if valid else "refused ") + x["kind"] + " list")
        if x["kind"] == "signal":
            make = lambda: toffee.SignalList(x["format"], x["limit"])
        else:
            sub = toffee.Bundle.new_class_from_list(["v"])
            make = lambda: toffee.BundleList(sub, x["format"], x["limit"])
        got = refused(make, f"{x['kind']} list {x['format']!r} of {x['limit']}", valid)
        if valid:
            end = "" if x["kind"] == "signal" else "v"
            pins = [x["format"].replace("#", str(i)) + end for i in range(x["limit"])]
            dut = bspec.make_dut(pins + ["other"])
            b = type("B", (toffee.Bundle,), {"xs": got})().bind(dut)
            for i, pin in enumerate(pins):
                sig = b.xs[i] if x["kind"] == "signal" else b.xs[i].v
                same(sig.xdata.name, f"dut.{pin}", f"pin of element {i} of {x}")
            same(len(list(b.all_signals())), x["limit"], f"signals of {x}")

    dut = bspec.make_dut(["s", "t"], max_steps=200)
    bundle = toffee.Bundle.new_class_from_list(["s", "t"])()
    state = {"mode": None, "bound": False}

    async def test():
        toffee.start_clock(dut)
        models, delayers = [], []

        class E(toffee.Env):
            pass

        env = E()
        for kind, arg in p["steps"]:
            if kind == "mode":
                valid = arg in ("Imme", "Rise", "Fall")
                mode = toffee.WriteMode[arg] if valid else arg
                if arg is None and not state["bound"]:
                    continue
                refused(lambda: bundle.set_write_mode(mode), f"write mode {mode!r}", valid)
                verdicts.add(valid)
                tags.add("write mode" if valid else "refused write mode")
                if valid:
                    state["mode"] = arg.lower()
            elif kind == "bind":
                bundle.bind(dut, arg)
                state["bound"] = True
            elif kind == "delay":
                got = refused(lambda: toffee.Delayer(dut.s, arg), f"delay {arg}", arg >= 0)
                verdicts.add(arg >= 0)
                tags.add("delayer" if arg >= 0 else "refused delayer")
                if arg >= 0:
                    delayers.append((got, arg, dut.cycles))
            elif kind == "cycle":
                for _ in range(arg):
                    dut.s.value = 100 + dut.cycles
                    await toffee.ClockCycles(dut, 1)
            else:
                obj = {
                    "model": toffee.Model(),
                    "class": toffee.Model,
                    "other": object(),
                    "none": None,
                    "env": env,
                }[arg]
                refused(lambda: env.attach(obj), f"attach of {arg}", arg == "model")
                verdicts.add(arg == "model")
                tags.add("attach" if arg == "model" else "refused attach")
                if arg == "model":
                    models.append(obj)
                same(env.attached_models, models, "attached models")
            if state["bound"] and state["mode"]:
                for pin in ("s", "t"):
                    same(dut.pin(pin).mode, state["mode"], f"write mode of {pin} after {kind} {arg}")
        for _ in range(5):
            dut.s.value = 100 + dut.cycles
            await toffee.ClockCycles(dut, 1)
        for d, delay, _ in delayers:
            # sampled at the end of every cycle so far, the last time in the cycle before this one
            same(d.value, 100 + dut.cycles - 1 - delay, f"value {delay} samples ago")
        return "done"

    same(toffee.run(test), "done", "result of run")
    return verdicts == {True, False}, tags


# ------------------------------------------------------------------------- coverage


@st.composite
def coverage_plan(draw):
    bins = st.sampled_from(["one", "two", "list", "func", "bare", "empty list"])
    bad = st.sampled_from(["number", "string", "none", "in dict", "in list", "later", "none in dict"])
    names = st.sampled_from(["p", "q", "r"])
    op = st.one_of(
        st.tuples(st.just("add"), names, bins),
        st.tuples(st.just("add"), names, bins),
        st.tuples(st.just("add"), names, bad),
        st.tuples(st.sampled_from(["del", "reset", "get", "covered", "mark"]), names, st.just("")),
        st.tuples(st.just("sample"), st.integers(0, 3), st.just("")),
    )
    return {
        "ops": draw(st.lists(op, min_size=2, max_size=16)),
        "stop": draw(st.booleans()),
    }


def run_coverage(p):
    import toffee.funcov as fc

    quiet()

    class Target:
        value = 0

    target, verdicts, tags = Target(), set(), set()
    group = fc.CovGroup("g", p["stop"])
    good = {
        "one": {"b": fc.CovEq(1)},
        "two": {"b": fc.CovEq(1), "c": fc.CovGt(1)},
        "list": {"b": [fc.CovGe(1), fc.CovLt(3)]},
        "func": {"f": lambda t: t.value == 2},
        "bare": fc.CovEq(0),
        "empty list": {"b": []},
    }
    bad = {
        "number": 3,
        "string": "bin",
        "none": None,
        "in dict": {"b": 3},
        "in list": {"b": [fc.CovEq(1), 3]},
        "later": {"b": fc.CovEq(1), "c": [fc.CovEq(1)], "d": "x"},
        "none in dict": {"b": None},
    }
    points = []
    for kind, name, which in p["ops"]:
        before = group.as_dict()
        if kind == "add":
            valid = which in good and name not in points
            bins = good[which] if which in good else bad[which]
            make = lambda: group.add_watch_point(target, bins, name=name)
        elif kind == "sample":
            target.value = name
            group.sample()
            continue
        else:
            valid = name in points
            make = {
                "del": lambda: group.del_point(name),
                "reset": lambda: group.reset_point(name),
                "get": lambda: group.cover_point(name),
                "covered": lambda: group.is_point_covered(name),
                "mark": lambda: group.mark_function(name, "some.py:1-2::f"),
            }[kind]
        refused(make, f"{kind} {name} {which} with points {points}", valid)
        verdicts.add(valid)
        tags.add(("" if valid else "refused ") + kind)
        if not valid:
            same(group.as_dict(), before, f"group after the refused {kind} {name} {which}")
        elif kind == "add":
            points.append(name)
            new = group.as_dict()["points"][-1]
            names = list(bins) if isinstance(bins, dict) else ["anonymous"]
            same([b["name"] for b in new["bins"]], names, f"bins of {which}")
        elif kind == "del":
            points.remove(name)
        same([x["name"] for x in group.as_dict()["points"]], points, "points of the group")
    return verdicts == {True, False}, tags


PARTS = [
    Part("members", members_plan, run_members, 1500),
    Part("executor", executor_plan, run_executor, 1500),
    Part("bundle", bundle_plan, run_bundle, 1500),
    Part("coverage", coverage_plan, run_coverage, 1500),
]
