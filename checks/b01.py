"""Binding connects exactly the signals the rules select."""

from hypothesis import strategies as st

from lib import bspec
from lib.common import check, quiet, same
from lib.runner import Part

ID = "B01"
RULE = (
    "A case is a generated bundle structure (signals, SignalLists, nested bundles, "
    "BundleLists; prefix/regex/dict rules at each level), a generated pin set and an access "
    "mode; it is non-trivial when at least two leaves are connected and at least one nested "
    "bundle or list is involved."
)
ASSUMPTIONS = [
    "The DUT is a stand-in with picker's pin interface (xdata, event, value, IsOutIO, W).",
    "Leaves for which several pins (or pins for which several leaves) qualify are only "
    "checked to get one of their candidates: toffee documents no priority between them.",
]


@st.composite
def plan(draw):
    spec = draw(bspec.specs())
    m = draw(bspec.methods(spec))
    pins = draw(bspec.pins_for(m, spec))
    return {
        "spec": spec,
        "m": m,
        "pins": pins,
        "access": draw(st.booleans()),
        "how": draw(st.sampled_from(["from", "set"])),
    }


def make(p):
    cls = bspec.build_class(p["spec"])
    if p.get("how") == "set":
        b = cls()
        kind, v = p["m"]
        {"prefix": b.set_prefix, "regex": b.set_regex, "dict": b.set_dict}[kind](v)
        return b
    return bspec.instance(p["m"], cls)


def check_connections(b, spec, m, pins, access, label="dut"):
    """Every leaf is connected as the rules say. Returns {path: pin}."""
    exp = bspec.Expected(m, spec, pins)
    nothing = "DUMMY" if access else "RAISES"
    got = {}
    for path in exp.paths:
        actual = bspec.pin_of(b, path)
        got[path] = actual
        if path in exp.exact:
            want = exp.exact[path]
            want = nothing if want is None else f"{label}.{want}"
            check(
                actual == want,
                "leaf %s is connected to %s, the rules select %s",
                path,
                actual,
                want,
            )
        else:
            ok = [f"{label}.{x}" for x in exp.loose[path]] + [nothing]
            check(actual in ok, "leaf %s is connected to %s, candidates %s", path, actual, ok)
    return exp, got


def run(p):
    import asyncio

    from toffee import Bundle

    quiet()
    asyncio.set_event_loop(None)
    dut = bspec.make_dut(p["pins"])
    b = make(p)
    r = b.bind(dut, p["access"])
    check(r is b, "bind does not return the bundle")
    check(b.bound is True, "bundle is not marked bound")
    exp, got = check_connections(b, p["spec"], p["m"], p["pins"], p["access"])

    # unconnected leaves: reads give None and writes vanish, or access raises
    before = {n: dut.pin(n).value for n in p["pins"]}
    for path, pin in got.items():
        if pin == "DUMMY":
            sig = bspec.get(b, path)
            sig.value = 5
            check(sig.value is None, "unconnected %s reads %r", path, sig.value)
        elif pin == "RAISES":
            for op in ("read", "write"):
                try:
                    sig = bspec.get(b, path)
                    if op == "read":
                        sig.value
                    else:
                        sig.value = 1
                except AttributeError:
                    continue
                check(False, "%s of unconnected %s does not raise", op, path)
    same({n: dut.pin(n).value for n in p["pins"]}, before, "pins after dummy writes")

    # a write through a leaf reaches exactly its pin
    k = 0
    for path, pin in got.items():
        if pin.startswith("dut."):
            k += 1
            n = pin[4:]
            before = {x: dut.pin(x).value for x in p["pins"]}
            bspec.get(b, path).value = 1000 + k
            before[n] = 1000 + k
            same({x: dut.pin(x).value for x in p["pins"]}, before, f"pins after writing {path}")

    # all_signals lists every leaf exactly once, with the connected object
    listed = list(b.all_signals())
    names = [n for n, _ in listed]
    check(
        sorted(names) == sorted(exp.paths),
        "all_signals names %s, the bundle has %s",
        sorted(names),
        sorted(exp.paths),
    )
    for n, sig in listed:
        if got[n].startswith("dut."):
            check(sig.xdata.name == got[n], "all_signals gives the wrong signal for %s", n)
    for s in p["spec"]["sigs"]:
        if got[s].startswith("dut."):
            check(b[s].xdata.name == got[s], "bundle[%r] is another signal", s)

    # the DUT-side report agrees with the bind
    used = {g[4:] for g in got.values() if g.startswith("dut.")}
    free = Bundle.detect_unconnected_signals(dut)
    for n in p["pins"]:
        if n not in used and not exp.by_pin[n]:
            check(n in free, "%s is connected to nothing but not reported unconnected", n)
        elif exp.by_pin[n] and all(x in exp.exact for x in exp.by_pin[n]):
            check(n not in free, "%s is connected but reported unconnected", n)

    nested = any("." in x or "[" in x for x, g in got.items() if g.startswith("dut."))
    tags = [p["m"][0]]
    if "DUMMY" in got.values():
        tags.append("unconnected-dummy")
    if "RAISES" in got.values():
        tags.append("unconnected-raises")
    if exp.loose:
        tags.append("ambiguous")
    if nested:
        tags.append("nested-connected")
    return len(used) >= 2 and nested, tags


PARTS = [Part("bind", plan, run, 1600)]
