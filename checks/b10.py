"""Binding reports every signal without a pin and every connection exactly once."""

import re

from hypothesis import strategies as st

from lib import bspec
from lib.common import check, quiet, same
from lib.runner import Part
from lib.scale import sizes

ID = "B10"
RULE = (
    "A case binds (and possibly rebinds) a generated bundle, named or not, to DUTs that lack some pins, with "
    "logging on, and compares the records that name a signal with the connections the rules select; or makes a "
    "bundle from a dictionary with keys that lead nowhere. Non-trivial: some signals connected and some missing, "
    "or keys of both kinds."
)
ASSUMPTIONS = [
    "A record is about a signal when it holds the signal's full name in double quotes (as all of toffee's do); "
    "its wording is not checked.",
    "The log line of a connected SignalList element names the list or the element.",
]


@st.composite
def bind_plan(draw):
    spec = draw(bspec.specs())
    m = draw(bspec.methods(spec))
    return {
        "spec": spec,
        "m": m,
        "name": draw(st.sampled_from([None, None, "", "top", "TOP7", "s", "a.b"])),
        "binds": [
            {"pins": draw(bspec.pins_for(m, spec)), "access": draw(st.booleans())}
            for _ in range(draw(st.sampled_from([1, 1, 2, 3])))
        ],
    }


def quoted(message):
    return re.findall(r'"([^"]*)"', message)


def run_bind(p):
    import asyncio

    log = quiet("DEBUG")
    asyncio.set_event_loop(None)
    b = bspec.instance(p["m"], bspec.build_class(p["spec"]))
    if p["name"] is not None:
        same(b.set_name(p["name"]) is b, True, "set_name returns the bundle")
    top = p["name"] + "." if p["name"] else ""
    tags, nontrivial = set(), False
    for n, bind in enumerate(p["binds"]):
        dut = bspec.make_dut(bind["pins"])
        log.clear()
        b.bind(dut, bind["access"])
        exp = bspec.Expected(p["m"], p["spec"], bind["pins"])
        warned = [m for lv, m in log.records if lv == "WARNING"]
        told = [m for lv, m in log.records if lv == "INFO"]
        worse = [m for lv, m in log.records if lv in ("ERROR", "CRITICAL")]
        check(not worse, "bind reports errors: %s", worse[:2])
        about = [q for m in warned for q in quoted(m)[:1]]
        missing = linked = 0
        for path in exp.paths:
            full = top + path
            k = about.count(full)
            if path in exp.loose:
                check(k <= 1, "%s is reported missing %d times", full, k)
                continue
            pin = exp.exact[path]
            if pin is None:
                missing += 1
                check(k == 1, "%s has no pin and is reported missing %d times", full, k)
                continue
            linked += 1
            check(k == 0, "%s is connected to %s and reported missing", full, pin)
            names = {full, re.sub(r"\[\d+\]$", "", full)}
            lines = [m for m in told if pin in quoted(m) and names & set(quoted(m))]
            check(len(lines) == 1, "connection of %s to %s is logged %d times", full, pin, len(lines))
        known = {top + path for path in exp.paths}
        for q in about:
            check(q in known, "%r is reported missing, the bundle has no such signal", q)
        again = [m for m in warned if not quoted(m)]
        check(
            len(again) == (1 if n else 0),
            "bind number %d gives the warnings %s besides missing signals",
            n + 1,
            again,
        )
        if missing:
            tags.add("missing")
        if n:
            tags.add("rebind")
        if p["name"]:
            tags.add("named")
        nontrivial |= bool(missing and linked)
    return nontrivial, tags


@st.composite
def dict_plan(draw):
    spec = draw(bspec.specs(depth=1))
    keys = sorted({n for n in bspec.needs(spec).values() if n is not None})
    good = [k for k in keys if draw(st.integers(0, 3)) > 0]
    bad = draw(
        st.lists(
            st.sampled_from(["nokey", "a", "b", "zz", "v", "v_77", "s", "k0_", "io_a", "s.a", "v[0]", ""]),
            unique=True,
            max_size=3,
        )
    )
    bad += [f"none{i}" for i in range(draw(sizes(0, 25, 0)))]
    order = draw(st.permutations(good + [k for k in bad if k not in good]))
    return {
        "spec": spec,
        "dict": [[k, f"pin{i}"] for i, k in enumerate(order)],
        "how": draw(st.sampled_from(["from", "set", "again", "bound", "bound-again"])),
    }


def run_dict(p):
    import asyncio

    asyncio.set_event_loop(None)
    # a constructor would make nested bundles, which warn about their own dictionaries
    cls = bspec.build_class(p["spec"], plain=True)
    log = quiet("DEBUG")
    d = dict(p["dict"])
    before = list(d.items())
    if p["how"] == "from":
        cls.from_dict(d)
    else:
        b = cls()
        if p["how"].endswith("again"):
            b.set_dict({"nokey": "pin0", "zz": "pin1"})
        if p["how"].startswith("bound"):
            b.bind(bspec.make_dut([v for _, v in p["dict"]] + ["pin77"]))
        log.clear()
        check(b.set_dict(d) is b, "set_dict does not return the bundle")
    same(list(d.items()), before, "the caller's dictionary")
    idle = [k for k, v in d.items() if not bspec.candidates(["dict", d], p["spec"], v)]
    lines = [m for lv, m in log.records if lv == "WARNING"]
    if not idle:
        check(not lines, "every key leads to a signal, the warnings are %s", lines)
        return len(d) > 1, ["all-match"]
    check(len(lines) == 1, "keys %s lead nowhere, the warnings are %s", idle, lines)
    for k in idle:
        check(repr(k) in lines[0], "key %r leads nowhere and is not in %r", k, lines[0])
    for k in d:
        if k not in idle:
            check(repr(k) not in lines[0], "key %r leads to a signal and is in %r", k, lines[0])
    return len(idle) < len(d), ["some-idle"]


PARTS = [
    Part("bind", bind_plan, run_bind, 1200),
    Part("dict", dict_plan, run_dict, 1000),
]
