"""Connectivity queries agree with what bind would do."""

from hypothesis import strategies as st

from lib import bspec
from lib.common import check, quiet, same
from lib.runner import Part

ID = "B07"
RULE = (
    "A case is a generated bundle, pin names it may or may not connect (its own pins, mutations of "
    "them, noise) and queries before and after a bind. Non-trivial: at least one name that connects to "
    "a nested or list signal and one that connects to nothing."
)
ASSUMPTIONS = [
    "Names several signals qualify for are only required not to be claimed by other signals.",
    "Rules that pass a regex, or a dictionary without the signal, are only required to exist.",
]


@st.composite
def plan(draw):
    spec, m = draw(bspec.tops())
    pins = draw(bspec.pins_for(m, spec))
    full = draw(bspec.pins_for(m, spec, drop=False))
    names = list(dict.fromkeys(pins + full))
    extra = []
    for n in draw(st.lists(st.sampled_from(names), max_size=4)):
        extra.append(
            draw(st.sampled_from([n + "x", n[1:], "io_" + n, n.upper(), n[:-1], n + "_o", "x" + n]))
        )
    names = draw(st.permutations(names))[:6]
    names += [n for n in dict.fromkeys(extra) if n.isidentifier() and n not in names]
    return {
        "spec": spec,
        "m": m,
        "pins": pins,
        "names": names,
        "access": draw(st.booleans()),
        "pick": draw(st.integers(0, 10**6)),
    }


def invertible(m, spec, path):
    """The pin name for the leaf if only prefix and dict rules lead to it."""
    if m[0] == "regex":
        return None
    for p, n in bspec.own_leaves(spec):
        if p == path:
            return bspec.invert_method(m, n)
    for seg, cm, sub in bspec.children(spec):
        if path.startswith(seg + "."):
            n = invertible(cm, sub, path[len(seg) + 1 :])
            return None if n is None else bspec.invert_method(m, n)
    raise AssertionError(path)


def run(p):
    quiet()
    spec, m = p["spec"], p["m"]
    b = bspec.instance(m, bspec.build_class(spec))
    leaves = bspec.leaves(spec)
    tags = set()

    def queries(when):
        for n in p["names"]:
            cand = bspec.candidates(m, spec, n)
            got = b.detect_connectivity(n)
            check(got is bool(cand), "%s: detect_connectivity(%r) is %s, candidates %s", when, n, got, cand)
            tags.add("some" if cand else "none")
            if cand and ("." in cand[0] or "[" in cand[0]):
                tags.add("nested")
            if len(cand) > 1:
                tags.add("ambiguous")
            asked = leaves
            if len(asked) > 4:
                k = p["pick"] % len(asked)
                asked = (asked[k:] + asked[:k])[:3] + cand[:2]
            for leaf in asked + ["nosuch"]:
                got = b.detect_specific_connectivity(n, leaf)
                if leaf not in cand:
                    check(
                        got is False,
                        "%s: detect_specific_connectivity(%r, %r) is %s, candidates %s",
                        when,
                        n,
                        leaf,
                        got,
                        cand,
                    )
                elif len(cand) == 1:
                    check(
                        got is True,
                        "%s: detect_specific_connectivity(%r, %r) is %s",
                        when,
                        n,
                        leaf,
                        got,
                    )
        rules = b.all_signals_rule()
        check(
            sorted(rules) == sorted(leaves),
            "all_signals_rule has %s, the bundle has %s",
            sorted(rules),
            sorted(leaves),
        )
        for leaf in leaves:
            n = invertible(m, spec, leaf)
            if n is not None and bspec.candidates(m, spec, n) == [leaf]:
                same(rules[leaf], n, f"{when}: rule of {leaf}")
                tags.add("rule-" + m[0])

    queries("unbound")
    dut = bspec.make_dut(p["pins"])
    b.bind(dut, p["access"])
    before = bspec.connections(b, spec)
    queries("bound")
    same(bspec.connections(b, spec), before, "connections after the queries")
    for n in p["pins"]:
        cand = bspec.candidates(m, spec, n)
        if len(cand) == 1 and before[cand[0]] == f"dut.{n}":
            check(b.detect_specific_connectivity(n, cand[0]), "bind and query disagree about %s", n)
    return {"nested", "none"} <= tags, tags


PARTS = [Part("queries", plan, run, 900)]
