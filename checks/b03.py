"""A rebind replaces the previous bind."""

import asyncio

from hypothesis import strategies as st

from lib import bspec
from lib.common import check, quiet, same
from lib.runner import Part
from lib.scale import sizes

from .b01 import check_connections
from .b08 import nested

ID = "B03"
RULE = (
    "A case is a generated bundle bound 2..4 times to two DUTs (rarely up to ten times to five) with different pin sets and access "
    "modes; after each bind the connections, the DUT reports, step() and process_requests are "
    "compared with what a first bind to that DUT must give. Non-trivial: a rebind with at least one "
    "leaf connected before and after."
)
ASSUMPTIONS = ["Stand-in DUT whose StepRis callbacks, like picker's, cannot be removed."]


@st.composite
def plan(draw):
    spec = draw(bspec.specs())
    m = draw(bspec.methods(spec))
    n_dut = draw(sizes(2, 5, 2, 8))
    pins = [draw(bspec.pins_for(m, spec)) for _ in range(n_dut)]
    binds = draw(
        st.lists(
            st.tuples(st.integers(0, n_dut - 1), st.booleans(), st.integers(0, 3)),
            min_size=n_dut,
            max_size=2 * n_dut,
        )
    )
    inner = bspec.nested_paths(spec)
    # a nested bundle may have been bound on its own in between
    alone = [
        [draw(st.sampled_from(inner)), draw(st.integers(0, n_dut - 1))]
        if inner and draw(st.integers(0, 5)) == 0
        else None
        for _ in binds
    ]
    return {"spec": spec, "m": m, "pins": pins, "binds": binds, "alone": alone}


def run(p):
    return asyncio.run(scenario(p))


async def scenario(p):
    from toffee import Bundle

    quiet()
    spec, m = p["spec"], p["m"]
    duts = [bspec.make_dut(p["pins"][i], label=f"d{i}") for i in range(len(p["pins"]))]
    b = bspec.instance(m, bspec.build_class(spec))
    sizes = []
    # pins a nested bundle, bound on its own, has several leaves or several pins for
    ways = {x[0]: x[1:] for x in nested(p)}
    vague = set()
    for path, dj in filter(None, p["alone"]):
        e = bspec.Expected(*ways[path], p["pins"][dj])
        vague |= {(dj, x) for xs in e.loose.values() for x in xs}
    for k, (di, access, nreq) in enumerate(p["binds"]):
        label = f"d{di}"
        other = duts[(di + 1) % len(duts)]
        if p["alone"][k]:
            path, dj = p["alone"][k]
            bspec.get(b, path).bind(duts[dj])
        b.bind(duts[di], access)
        exp, got = check_connections(b, spec, m, p["pins"][di], access, label)
        used = [x for x in got.values() if x.startswith(label + ".")]
        sizes.append(len(used))
        # pins that could only be counted ambiguously are left out
        for dj in range(len(duts)):
            e = bspec.Expected(m, spec, p["pins"][dj])
            clear = [
                x
                for x in p["pins"][dj]
                if all(path in e.exact for path in e.by_pin[x]) and (dj, x) not in vague
            ]
            free = Bundle.detect_unconnected_signals(duts[dj])
            multi = Bundle.detect_multiple_connections(duts[dj])
            for x in clear:
                want = f"d{dj}.{x}" in used
                check(
                    (x not in free) == want,
                    "after bind %d, pin d%d.%s is %sreported unconnected",
                    k,
                    dj,
                    x,
                    "" if want else "not ",
                )
                check(x not in multi, "pin d%d.%s reported multiply connected", dj, x)
        # the clock
        if used:
            await clock(b, duts[di], other)
        for seg in bspec.nested_paths(spec):
            if any(q.startswith(seg + ".") and g.startswith(label) for q, g in got.items()):
                await clock(bspec.get(b, seg), duts[di], other)
        # requests
        seen = []
        c0, o0 = duts[di].cycles, other.cycles
        reqs = [(lambda cycle, bd, j=j: seen.append((j, cycle)) or {}) for j in range(nreq)]
        b.process_requests(reqs)
        same(seen, [(j, c0 + 1 + j) for j in range(nreq)], f"requests answered after bind {k}")
        same(duts[di].cycles - c0, nreq, "cycles stepped for the requests")
        same(other.cycles - o0, 0, "cycles stepped on the other DUT")
        other.Step(1)
    again = any(
        sizes[i] and sizes[i + 1] for i in range(len(sizes) - 1)
    )
    tags = ["same-dut" if a[0] == c[0] else "other-dut" for a, c in zip(p["binds"], p["binds"][1:])]
    tags += ["access-change" for a, c in zip(p["binds"], p["binds"][1:]) if a[1] != c[1]]
    if any(p["alone"]):
        tags.append("nested-alone")
    return again, tags


async def clock(b, dut, other):
    t = asyncio.ensure_future(b.step(2))

    async def tick(d):
        for _ in range(3):
            await asyncio.sleep(0)
        d.event.set()
        d.event.clear()
        for _ in range(3):
            await asyncio.sleep(0)

    await tick(other)
    await tick(other)
    check(not t.done(), "step() follows the clock of the DUT bound before")
    await tick(dut)
    check(not t.done(), "step(2) returns after one cycle")
    await tick(dut)
    check(t.done(), "step(2) does not return after two cycles of the bound DUT")
    await t


PARTS = [Part("rebind", plan, run, 700)]
