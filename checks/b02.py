"""Bundle instances do not share state."""

import copy

from hypothesis import strategies as st

from lib import bspec
from lib.common import check, quiet, same
from lib.runner import Part

from .b01 import check_connections

ID = "B02"
RULE = (
    "A case is a history of create / bind / rebind / write / set-rule / set-write-mode operations "
    "over up to three instances of one generated class, or of two classes sharing attribute "
    "objects; each instance has its own DUT. Non-trivial: at least two instances bound, at least "
    "one with a nested bundle or list connected."
)
ASSUMPTIONS = ["Stand-in DUT; one DUT per instance so that any influence is a sharing defect."]


@st.composite
def plan(draw):
    spec = draw(bspec.specs(depth=2))
    n = draw(st.integers(2, 3))
    ms = [draw(bspec.methods(spec)) for _ in range(n)]
    pins = [draw(bspec.pins_for(m, spec, drop=False, noise=False)) for m in ms]
    ops = draw(
        st.lists(
            st.one_of(
                st.tuples(st.just("bind"), st.integers(0, n - 1), st.booleans()),
                st.tuples(st.just("bind"), st.integers(0, n - 1), st.booleans()),
                st.tuples(st.just("write"), st.integers(0, n - 1), st.integers(0, 30)),
                st.tuples(st.just("prefix"), st.integers(0, n - 1), st.integers(0, 9)),
                st.tuples(st.just("mode"), st.integers(0, n - 1), st.integers(0, 2)),
                st.tuples(st.just("setall"), st.integers(0, n - 1), bspec.SMALL),
                st.tuples(st.just("name"), st.integers(0, n - 1), st.integers(0, 9)),
                # the objects the class was declared with are bundles as well
                st.tuples(st.just("declared"), st.integers(0, 11), st.integers(0, 5)),
            ),
            min_size=3,
            max_size=9,
        )
    )
    late = draw(st.booleans())
    return {
        "spec": spec,
        "ms": ms,
        "pins": pins,
        "ops": ops,
        "two_classes": draw(st.booleans()),
        "late": late,
    }


def spec_at(spec, path):
    """(container list entry, key) that holds the rule of the nested bundle at path."""
    import re

    cur = spec
    out = None
    for seg in path.split("."):
        mo = re.match(r"(\w+)\[(\d+)\]$", seg)
        if mo:
            bl = next(b for b in cur["blists"] if b["name"] == mo.group(1))
            out = ("blist", bl, mo.group(2))
            cur = bl["spec"]
        else:
            sub = next(s for s in cur["subs"] if s["name"] == seg)
            out = ("sub", sub, None)
            cur = sub["spec"]
    return out


def run(p):
    from toffee import Bundle, BundleList

    quiet()
    n = len(p["ms"])
    attrs = bspec.build_attrs(p["spec"])
    c1 = type("C1", (Bundle,), dict(attrs))
    c2 = type("C2", (Bundle,), dict(attrs)) if p["two_classes"] else c1
    duts = [bspec.make_dut(p["pins"][i], label=f"d{i}") for i in range(n)]
    bundles = [None] * n
    specs = [copy.deepcopy(p["spec"]) for _ in range(n)]
    access = [None] * n  # None: unbound
    modes = [None] * n
    declared = []
    for x in attrs.values():
        declared += [x] if isinstance(x, Bundle) else list(x) if isinstance(x, BundleList) else []
    own = bspec.make_dut(sorted({x for q in p["pins"] for x in q}), label="t")
    bound_specs = [None] * n

    def create(i):
        bundles[i] = bspec.instance(p["ms"][i], c2 if i % 2 else c1)
        for path, state in settings(i).items():
            same(state, ("", None), f"name and write mode of {path!r} of the new bundle {i}")

    def settings(i):
        if bundles[i] is None:
            return {}
        return {
            path: (b.name, b.write_mode)
            for path in [""] + bspec.nested_paths(specs[i])
            for b in [bspec.get(bundles[i], path) if path else bundles[i]]
        }

    def verify(what):
        for i in range(n):
            if bundles[i] is None:
                continue
            if access[i] is None:
                for path, pin in bspec.connections(bundles[i], specs[i]).items():
                    check(
                        pin == "RAISES", "%s: unbound bundle %d has %s at %s", what, i, pin, path
                    )
                check(not bundles[i].bound, "%s: bundle %d claims to be bound", what, i)
            else:
                check_connections(
                    bundles[i], bound_specs[i], p["ms"][i], p["pins"][i], access[i], f"d{i}"
                )

    def values():
        return [{x: d.pin(x).value for x in d._names} for d in duts]

    def pinmodes():
        return [{x: d.pin(x).mode for x in d._names} for d in duts]

    for i in range(n):
        if not p["late"]:
            create(i)
    verify("after creation")
    for kind, i, arg in p["ops"]:
        if kind == "declared":
            if declared:
                sbefore = [settings(j) for j in range(n)]
                from toffee import WriteMode

                b = declared[i % len(declared)]
                if arg < 2:
                    b.bind(own, True)
                elif arg == 2:
                    b.set_name("declared")
                elif arg == 3:
                    b.set_write_mode(list(WriteMode)[i % 3])
                else:
                    b.bind(own, True)
                    b.set_all(90 + i)
                for j in range(n):
                    same(settings(j), sbefore[j], f"settings of bundle {j}")
            verify("after use of a declared bundle")
            continue
        if bundles[i] is None:
            create(i)
            verify("late creation")
        b = bundles[i]
        before, mbefore = values(), pinmodes()
        sbefore = [settings(j) for j in range(n)]
        if kind == "bind":
            b.bind(duts[i], arg)
            access[i] = arg
            bound_specs[i] = copy.deepcopy(specs[i])
        elif kind == "write":
            conn = [
                (path, pin)
                for path, pin in bspec.connections(b, specs[i]).items()
                if pin.startswith("d")
            ]
            if conn:
                path, pin = conn[arg % len(conn)]
                bspec.get(b, path).value = 7000 + arg
        elif kind == "setall":
            b.set_all(arg)
        elif kind == "prefix":
            nested = bspec.nested_paths(specs[i])
            if nested:
                path = nested[arg % len(nested)]
                bspec.get(b, path).set_prefix("zz_")
                k, entry, idx = spec_at(specs[i], path)
                if k == "sub":
                    entry["m"] = ["prefix", "zz_"]
                elif "." not in path or True:
                    entry.setdefault("over", {})[idx] = "zz_"
                # rules of elements that share one spec entry cannot be told apart below
                # a BundleList, so such histories end here
                if "[" in path.rsplit(".", 1)[0] and "." in path:
                    return False, ["rule-below-bundlelist"]
        elif kind == "name":
            nested = [""] + bspec.nested_paths(specs[i])
            path = nested[arg % len(nested)]
            (bspec.get(b, path) if path else b).set_name(f"n{arg}")
        elif kind == "mode":
            from toffee import WriteMode

            b.set_write_mode(list(WriteMode)[arg])
            modes[i] = arg
        verify(f"after {kind} on bundle {i}")
        after, mafter = values(), pinmodes()
        for j in range(n):
            if j != i:
                same(after[j], before[j], f"values of DUT {j} after {kind} on bundle {i}")
                same(mafter[j], mbefore[j], f"write modes of DUT {j} after {kind} on {i}")
                same(settings(j), sbefore[j], f"settings of bundle {j} after {kind} on {i}")
                check(
                    bundles[j] is None
                    or bundles[j].write_mode
                    == (None if modes[j] is None else list(type(bundles[j].write_mode))[modes[j]]),
                    "write mode of bundle %d changed",
                    j,
                )
    nb = sum(a is not None for a in access)
    nested = any(
        ("." in x or "[" in x)
        for i in range(n)
        if access[i] is not None
        for x, g in bspec.connections(bundles[i], specs[i]).items()
        if g.startswith("d")
    )
    tags = [k for k, _, _ in p["ops"] if k != "declared" or declared] + (["shared-attrs"] if p["two_classes"] else [])
    return nb >= 2 and nested, tags


PARTS = [Part("history", plan, run, 800)]
