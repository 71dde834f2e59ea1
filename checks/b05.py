"""as_dict reports the bundle and round-trips through assign."""

import re

from hypothesis import strategies as st

from lib import bspec
from lib.common import check, quiet, same
from lib.runner import Part

ID = "B05"
RULE = (
    "A case is a generated bundle class bound twice, to DUTs with the same pins and different generated "
    "values; both forms of as_dict are compared with the pins and the dictionaries assigned from one "
    "bundle to the other. Non-trivial: at least two connected leaves, one of them nested or in a list."
)
ASSUMPTIONS = ["Unconnected leaves read None, so unconnected access is allowed unless none is unconnected."]


@st.composite
def plan(draw):
    spec, m = draw(bspec.tops())
    pins = draw(bspec.with_ports(draw(bspec.pins_for(m, spec))))
    vals = [
        [draw(st.one_of(st.integers(0, 3), st.integers(0, 2**64 - 1))) for _ in pins]
        for _ in range(3)
    ]
    return {"spec": spec, "m": m, "pins": pins, "vals": vals, "first": draw(st.booleans())}


def expected(spec, conn, value, prefix=""):
    out = {s: value(conn[prefix + s]) for s in spec["sigs"]}
    for lst in spec["lists"]:
        out[lst["name"]] = [
            value(conn[f"{prefix}{lst['name']}[{i}]"]) for i in range(lst["n"])
        ]
    for sub in spec["subs"]:
        out[sub["name"]] = expected(sub["spec"], conn, value, f"{prefix}{sub['name']}.")
    for bl in spec["blists"]:
        out[bl["name"]] = [
            expected(bl["spec"], conn, value, f"{prefix}{bl['name']}[{i}].")
            for i in range(bl["n"])
        ]
    return out


def flatten(spec, d, prefix=""):
    out = {prefix + s: d[s] for s in spec["sigs"]}
    for lst in spec["lists"]:
        out[prefix + lst["name"]] = d[lst["name"]]
    for sub in spec["subs"]:
        out.update(flatten(sub["spec"], d[sub["name"]], f"{prefix}{sub['name']}."))
    for bl in spec["blists"]:
        for i in range(bl["n"]):
            out.update(flatten(bl["spec"], d[bl["name"]][i], f"{prefix}{bl['name']}[{i}]."))
    return out


def shown(spec):
    """How often each name occurs in the text of the bundle, at least."""
    out = {}
    for n in spec["sigs"] + [x["name"] for x in spec["lists"] + spec["subs"] + spec["blists"]]:
        out[n] = out.get(n, 0) + 1
    for x, times in [(x, 1) for x in spec["subs"]] + [(x, x["n"]) for x in spec["blists"]]:
        for n, k in shown(x["spec"]).items():
            out[n] = out.get(n, 0) + k * times
    return out


def text(bundle, spec, what):
    got = str(bundle)
    for n, k in shown(spec).items():
        found = len(re.findall(rf"\b{n}: ", got))
        check(found >= k, "%s: str() shows %s %d times, expected %d: %s", what, n, found, k, got)


def run(p):
    cap = quiet("ERROR")
    spec = p["spec"]
    cls = bspec.build_class(spec)
    names = bspec.pin_names(p["pins"])
    duts, bs = [], []
    for i in range(2):
        duts.append(bspec.make_dut(p["pins"], label=f"d{i}"))
        bundle = bspec.instance(p["m"], cls)
        text(bundle, spec, "before the bind")
        bs.append(bundle.bind(duts[i]))
        text(bundle, spec, "after the bind")

    other = bspec.instance(p["m"], cls).bind(bspec.make_dut(p["pins"], label="x"), False)
    text(other, spec, "bound without unconnected access")

    def load(i, vals):
        for n, v in zip(names, vals):
            duts[i].pin(n).xdata.raw = v

    conns = [bspec.connections(b, spec) for b in bs]
    if "DUMMY" not in conns[0].values():
        # the same must hold when unconnected access is refused
        bs[1].bind(duts[1], False)
    same(
        {k: v[3:] if v != "DUMMY" else v for k, v in conns[0].items()},
        {k: v[3:] if v != "DUMMY" else v for k, v in conns[1].items()},
        "connections of two bundles of one class",
    )

    def want(i):
        return expected(
            spec, conns[i], lambda pin: None if pin == "DUMMY" else duts[i].pin(pin[3:]).value
        )

    def compare(i, what):
        w = want(i)
        same(bs[i].as_dict(), w, what + ": multilevel as_dict")
        same(bs[i].as_dict(multilevel=False), flatten(spec, w), what + ": flat as_dict")
        return w

    load(0, p["vals"][0])
    load(1, p["vals"][1])
    d = bs[0].as_dict()
    f = bs[0].as_dict(multilevel=False)
    w0 = compare(0, "after loading")
    compare(1, "after loading")
    nothing = [names_ for names_ in names]
    before = [x for x in (duts[0].pin(n).xdata.writes[:] for n in nothing)]
    check(not any(before), "as_dict wrote pins")
    connected = [pin[3:] for pin in conns[1].values() if pin != "DUMMY"]
    forms = [(d, True), (f, False)]
    if p["first"]:
        forms.reverse()
    for item, multi in forms:
        load(1, p["vals"][2])
        others = {n: duts[1].pin(n).value for n in names if n not in connected}
        bs[1].assign(item, multilevel=multi)
        same(bs[1].as_dict(), w0, f"round trip (multilevel={multi})")
        compare(1, f"round trip (multilevel={multi})")
        same(
            {n: duts[1].pin(n).value for n in names if n not in connected},
            others,
            "pins outside the bundle after the round trip",
        )
    check(not cap.of("ERROR"), "the round trip logs %s", cap.of("ERROR"))
    # a dictionary is a snapshot
    load(0, p["vals"][2])
    same(d, w0, "a dictionary taken before the pins changed")
    same(f, flatten(spec, w0), "a flat dictionary taken before the pins changed")
    nested = [k for k, v in conns[0].items() if v != "DUMMY" and ("." in k or "[" in k)]
    tags = {"unconnected"} if "DUMMY" in conns[0].values() else {"all-connected"}
    if any("]." in k for k in nested):
        tags.add("blist")
    if any("." in k for k in nested):
        tags.add("sub")
    if any(k.endswith("]") for k in nested):
        tags.add("list")
    return len(connected) >= 2 and bool(nested), tags


@st.composite
def ports(draw):
    names = draw(st.lists(st.sampled_from(bspec.SIGS), min_size=1, unique=True))
    return {
        "names": names,
        "vals": [[draw(st.integers(0, 99)) for _ in names] for _ in range(3)],
        "some": draw(st.lists(st.sampled_from(names), unique=True)),
    }


def xport(p):
    """Bundles made from the pins of an XPort are connected to these pins."""
    from toffee import Bundle

    cap = quiet("ERROR")
    names = p["names"]
    duts = [bspec.make_dut(["io_" + n for n in names], label=f"dut{i}") for i in range(2)]
    bs = []
    for dut in duts:
        bs.append(Bundle.from_xport(bspec.XPortFake({n: dut.pin("io_" + n) for n in names})))
    for dut, vals in zip(duts, p["vals"]):
        for n, v in zip(names, vals):
            dut.pin("io_" + n).value = v
    want = [dict(zip(names, v)) for v in p["vals"]]
    for b, w in zip(bs, want):
        same(b.as_dict(), w, "bundle of an XPort")
        same(b.as_dict(multilevel=False), w, "bundle of an XPort, flat")
        for n in names:
            check(re.search(rf"\b{re.escape(n)}\b", str(b)), "str() does not show %s: %s", n, b)
    bs[0].assign({n: want[2][n] for n in p["some"]})
    want[0].update({n: want[2][n] for n in p["some"]})
    same([b.as_dict() for b in bs], want[:2], "bundles of two XPorts after an assign to one")
    same(sorted(n for n, _ in bs[0].all_signals()), sorted(names), "signals of the bundle")
    bs[1].assign(bs[0].as_dict())
    same({n: duts[1].pin("io_" + n).value for n in names}, want[0], "pins after the round trip")
    same(cap.of("ERROR"), [], "errors")
    return len(names) > 1, ["xport"]


PARTS = [Part("dict", plan, run, 1000), Part("xport", ports, xport, 60)]
