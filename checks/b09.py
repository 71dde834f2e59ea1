"""process_requests applies one request per cycle and returns its data."""

from hypothesis import strategies as st

from lib import bspec
from lib.common import check, quiet, same
from lib.fakedut import StepBudget
from lib.runner import Part
from lib.scale import sizes

ID = "B09"
RULE = (
    "A case is 1..3 process_requests calls (lists of dictionaries with conditions, functions and return "
    "bundles, callables and None) on one or two bundles of a DUT whose outputs change every cycle, "
    "compared with a cycle-by-cycle reference. Non-trivial: a condition that blocks at least one cycle, "
    "or a callable/None between dictionaries, with returned data."
)
ASSUMPTIONS = [
    "The DUT calls its rise callbacks once per stepped cycle, after its outputs changed.",
    "Return bundles are asked for in dictionaries only, not in what callables return.",
]


PINS = ["a", "b", "s_c", "o", "s_p", "x_a", "x_b", "x_s_c", "x_o", "x_s_p"]
OUTS = {"o", "s_p", "x_o", "x_s_p"}


@st.composite
def request(draw, depth=0):
    k = draw(st.sampled_from(["dict"] * 5 + ["none", "call", "callnone", "again"]))
    r = {"k": k}
    if k in ("none", "callnone", "again"):
        return r
    r["set"] = draw(
        st.dictionaries(st.sampled_from(["a", "b", "s.c"]), st.integers(0, 50), max_size=3)
    )
    r["star"] = draw(st.sampled_from([None, None, None, 0, 9]))
    if draw(st.integers(0, 2)) == 0:
        r["cond"] = draw(sizes(4, 60, 1))
        r["args"] = draw(st.sampled_from(["absent", None, 0, 7]))
    if draw(st.booleans()):
        fs = draw(st.lists(st.sampled_from([0, 1, None, "x", "skip"]), min_size=0, max_size=draw(sizes(3, 9, 3, 10))))
        r["funcs"] = fs
        r["fsingle"] = len(fs) == 1 and draw(st.booleans())
    if k == "dict" and draw(st.integers(0, 3)) > 0:
        r["ret"] = draw(st.lists(st.sampled_from(["top", "sub", "other"]), min_size=1, max_size=draw(sizes(3, 7, 3, 10))))
        r["rsingle"] = len(r["ret"]) == 1 and draw(st.booleans())
    return r


@st.composite
def plan(draw):
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        n = draw(sizes(0, 24, one_in=14))
        # now and then a long list
        reqs = draw(st.lists(request(), min_size=n, max_size=n or 5))
        calls.append(
            {
                "on": draw(st.integers(0, 1)),
                "reqs": reqs,
                "bare": len(reqs) == 1 and draw(st.booleans()),
                "idle": draw(st.integers(0, 2)),
                # pins driven by somebody else before the next call
                "poke": draw(st.dictionaries(st.sampled_from(PINS), st.integers(51, 60), max_size=2)),
            }
        )
        if draw(st.integers(0, 3)) == 0:
            calls.append(dict(calls[-1]))
    return {"calls": calls}




def run(p):
    from toffee import Bundle, Signals

    class Sub(Bundle):
        c, p = Signals(2)

    class Top(Bundle):
        a, b, o = Signals(3)
        s = Sub.from_prefix("s_")

    quiet()

    def on_step(d):
        for n in OUTS:
            d.pin(n).xdata.raw = d.cycles * 100 + len(n)

    dut = bspec.make_dut([[n, 32, n in OUTS] for n in PINS], on_step=on_step, max_steps=4000)
    bs = [Top.from_prefix("").bind(dut), Top.from_prefix("x_").bind(dut)]
    pre = ["", "x_"]
    pins = dict.fromkeys(PINS, 0)  # reference pins
    cycle = 0
    tags, nontrivial = set(), False

    def dict_of(i, which):
        q = pre[i]
        sub = {"c": pins[q + "s_c"], "p": pins[q + "s_p"]}
        if which == "sub":
            return sub
        return {"a": pins[q + "a"], "b": pins[q + "b"], "o": pins[q + "o"], "s": sub}

    for ci, call in enumerate(p["calls"]):
        i = call["on"]
        b, q = bs[i], pre[i]
        log, want_log = [], []
        objs, specs = [], []

        def fields(r, ri):
            d = {}
            for path, v in r["set"].items():
                if path == "s.c":
                    d["s"] = {"c": v}
                else:
                    d[path] = v
            if r["star"] is not None:
                d["*"] = r["star"]
            if "cond" in r:
                count = [0]

                def cond(cyc, bd, args, ri=ri, k=r["cond"], count=count):
                    count[0] += 1
                    log.append(("cond", ri, cyc, bd is b, args))
                    return count[0] >= k

                d["__condition_func__"] = cond
                if r["args"] != "absent":
                    d["__condition_args__"] = r["args"]
            if "funcs" in r:
                fs = []
                for fi, v in enumerate(r["funcs"]):
                    if v == "skip":
                        fs.append(None)
                        continue

                    def f(cyc, bd, ri=ri, fi=fi, v=v):
                        log.append(("func", ri, fi, cyc, bd is b, dut.pin(q + "a").value))
                        return v

                    fs.append(f)
                d["__funcs__"] = fs[0] if r["fsingle"] else fs
            if "ret" in r:
                bundles = [{"top": b, "sub": b.s, "other": bs[1 - i]}[x] for x in r["ret"]]
                d["__return_bundles__"] = bundles[0] if r["rsingle"] else bundles
            return d

        for ri, r in enumerate(call["reqs"]):
            k = r["k"]
            if k == "again" and (not specs or specs[-1][0]["k"] != "dict" or "cond" in specs[-1][0]):
                k = "none"
            if k == "none":
                objs.append(None)
                specs.append(({"k": "none"}, ri))
            elif k == "callnone":

                def fn(cyc, bd, ri=ri):
                    log.append(("call", ri, cyc, bd is b))

                objs.append(fn)
                specs.append((r, ri))
            elif k == "call":

                def fn(cyc, bd, ri=ri, r=r):
                    log.append(("call", ri, cyc, bd is b))
                    return fields(r, ri)

                objs.append(fn)
                specs.append((r, ri))
            elif k == "again":  # the same dictionary object once more
                objs.append(objs[-1])
                specs.append(specs[-1])
                tags.add("same-object")
            else:
                objs.append(fields(r, ri))
                specs.append((r, ri))

        # ---- reference
        want = []
        start = cycle

        def tick():
            nonlocal cycle
            cycle += 1
            for n in OUTS:
                pins[n] = cycle * 100 + len(n)

        for r, ri in specs:
            tick()
            if r["k"] == "none":
                continue
            if r["k"] in ("call", "callnone"):
                want_log.append(("call", ri, cycle, True))
                tags.add(r["k"])
                if r["k"] == "callnone":
                    continue
            if "cond" in r:
                args = None if r["args"] == "absent" else r["args"]
                for e in range(r["cond"]):
                    if e:
                        tick()
                    want_log.append(("cond", ri, cycle, True, args))
                if r["cond"] > 1:
                    tags.add("blocked" + ("-last" if (r, ri) == specs[-1] else ""))
            if r["star"] is not None:
                for n in ("a", "b", "s_c"):
                    pins[q + n] = r["star"]
            for path, v in r["set"].items():
                pins[q + path.replace(".", "_")] = v
            rets = None
            if "funcs" in r:
                rets = []
                for fi, v in enumerate(r["funcs"]):
                    rets.append(None if v == "skip" else v)
                    if v != "skip":
                        want_log.append(("func", ri, fi, cycle, True, pins[q + "a"]))
                if len(rets) == 1:
                    rets = rets[0]
            if "ret" in r:
                data = [
                    dict_of(1 - i if x == "other" else i, "sub" if x == "sub" else "top")
                    for x in r["ret"]
                ]
                want.append(
                    {
                        "data": data[0] if len(data) == 1 else data,
                        "cycle": cycle,
                        "__funcs_return__": rets,
                    }
                )

        # ---- the real thing
        copies = [dict(o) if isinstance(o, dict) else o for o in objs]
        arg = objs[0] if call["bare"] else objs
        n = len(objs)
        try:
            got = b.process_requests(arg)
        except StepBudget:
            check(False, "process_requests never finished: %s", call)
        same(dut.cycles, cycle, f"DUT cycles after call {ci} (started at {start})")
        same(log, want_log, f"conditions, callables and functions of call {ci}")
        same(got, want, f"result of call {ci}")
        same({x: dut.pin(x).value for x in PINS}, pins, f"pins after call {ci}")
        check(len(objs) == n, "process_requests changed the caller's list")
        for o, c in zip(objs, copies):
            if isinstance(o, dict):
                check(
                    o.keys() == c.keys() and all(o[k] is c[k] for k in c),
                    "process_requests changed the caller's dictionary: %s",
                    sorted(o),
                )
        if call["bare"]:
            tags.add("bare")
        if want:
            nontrivial = nontrivial or bool(tags)
        for _ in range(call["idle"]):
            dut.Step(1)
            tick()
            same({x: dut.pin(x).value for x in PINS}, pins, "pins in an idle cycle")
        for x, v in call["poke"].items():
            dut.pin(x).value = pins[x] = v
    return nontrivial, tags


PARTS = [Part("requests", plan, run, 1200)]
