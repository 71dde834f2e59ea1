"""Connection reports of a DUT."""

import collections

from hypothesis import strategies as st

from lib import bspec
from lib.common import check, quiet
from lib.runner import Part
from lib.scale import flags

ID = "B08"
RULE = (
    "A case is a history of binds and rebinds of 1..18 generated bundles, or of bundles nested in them, to two DUTs; after every "
    "bind both reports of both DUTs are compared with the connections the bundles really have. "
    "Non-trivial: some pin is connected by two bundles, or a rebind released a pin."
)
ASSUMPTIONS = ["Pins that several leaves of one bundle qualify for are left out."]


def nested(b):
    """(path, method, spec) of every nested bundle."""

    def walk(spec, prefix):
        for seg, m, sub in bspec.children(spec):
            yield prefix + seg, m, sub
            yield from walk(sub, prefix + seg + ".")

    return list(walk(b["spec"], ""))


@st.composite
def plan(draw):
    # now and then many bundles on the same pins
    many = draw(flags(10))
    n = draw(st.integers(5, 18) if many else st.integers(1, 4))
    shared = draw(bspec.specs(depth=1, small=many))
    bundles = []
    for _ in range(n):
        again = draw(st.integers(0, 3))
        if bundles and (again < 2 or many and len(bundles) > 1):
            bundles.append(draw(st.sampled_from(bundles)))
            continue
        spec = shared if again == 2 else draw(bspec.specs(depth=1))
        bundles.append({"spec": spec, "m": draw(bspec.methods(spec))})
    ops = draw(
        st.lists(
            st.tuples(st.integers(0, n - 1), st.integers(0, 1), st.booleans()),
            min_size=2,
            max_size=6,
        )
    )
    if many:
        dut = draw(st.integers(0, 1))
        ops = [(i, dut, True) for i in range(n)] + ops
    for i, op in enumerate(ops):
        inner = [x[0] for x in nested(bundles[op[0]])]
        # a nested bundle may be bound on its own, too
        alone = inner and draw(st.integers(0, 3)) == 0
        ops[i] = [*op, draw(st.sampled_from(inner)) if alone else ""]
    pins = []
    for _ in range(2):
        names = []
        for k, b in enumerate(bundles):
            made = [(b["m"], b["spec"])]
            made += [x[1:] for x in nested(b) if any(o[0] == k and o[3] == x[0] for o in ops)]
            for m, spec in made:
                for x in draw(bspec.pins_for(m, spec)):
                    if x not in names:
                        names.append(x)
        pins.append(names)
    return {"bundles": bundles, "pins": pins, "ops": ops}


def run(p):
    from toffee import Bundle

    quiet()
    duts = [bspec.make_dut(p["pins"][i], label=f"d{i}") for i in range(2)]
    bs = [bspec.instance(x["m"], bspec.build_class(x["spec"])) for x in p["bundles"]]
    ways = [{"": (b["m"], b["spec"]), **{x[0]: x[1:] for x in nested(b)}} for b in p["bundles"]]
    exps = {}
    for k, _, _, inner in p["ops"]:
        if (k, inner) not in exps:
            exps[k, inner] = [bspec.Expected(*ways[k][inner], p["pins"][j]) for j in range(2)]
    loose = [
        {x for x in p["pins"][j] for e in exps.values() for path in e[j].by_pin[x] if path in e[j].loose}
        for j in range(2)
    ]
    at = {}  # (bundle, leaf) -> (dut, pin)
    bound = {}
    tags = set()
    for bi, dj, access, inner in p["ops"]:
        if inner:
            tags.add("nested")
        if (bi, inner) in bound:
            tags.add("rebind-same" if bound[bi, inner] == dj else "rebind-other")
        bspec.get(bs[bi], inner).bind(duts[dj], access)
        bound[bi, inner] = dj
        under = inner + "." if inner else ""
        e = exps[bi, inner][dj]
        for path in e.paths:
            at.pop((bi, under + path), None)
        for path, pin in e.exact.items():
            if pin is not None:
                at[bi, under + path] = dj, pin
        count = collections.Counter(at.values())
        for j in range(2):
            free = Bundle.detect_unconnected_signals(duts[j])
            multi = Bundle.detect_multiple_connections(duts[j])
            check(len(set(free)) == len(free), "a pin is listed twice as unconnected: %s", free)
            check(len(set(multi)) == len(multi), "a pin is listed twice as multiple: %s", multi)
            check(set(free) | set(multi) <= set(p["pins"][j]), "reports name unknown pins")
            for x in p["pins"][j]:
                if x in loose[j]:
                    continue
                cnt = count[j, x]
                check(
                    (x in free) == (cnt == 0),
                    "pin d%d.%s has %d connections, unconnected report says %s",
                    j,
                    x,
                    cnt,
                    x in free,
                )
                check(
                    (x in multi) == (cnt > 1),
                    "pin d%d.%s has %d connections, multiple report says %s",
                    j,
                    x,
                    cnt,
                    x in multi,
                )
                if cnt > 1:
                    tags.add("shared-pin")
    return bool(tags), tags


PARTS = [Part("reports", plan, run, 700)]
