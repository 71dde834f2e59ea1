"""Bulk operations touch exactly the drivable pins."""

import random

from hypothesis import strategies as st

from lib import bspec
from lib.common import check, quiet, same
from lib.runner import Part

ID = "B06"
RULE = (
    "A case is a generated bundle bound to a DUT with outputs, missing and foreign pins, and 1..4 "
    "operations: set_all, randomize_all (ranges, exclusions, recording or default random function), "
    "write modes before or after binding, on the bundle or a nested one. Non-trivial: at least two "
    "drivable pins and at least one pin that must be left alone."
)
ASSUMPTIONS = ["The stand-in pins record writes and the last requested write mode."]
MODES = ["imme", "rise", "fall"]


@st.composite
def plan(draw):
    spec, m = draw(bspec.tops())
    pins = draw(bspec.with_ports(draw(bspec.pins_for(m, spec))))
    leaves = bspec.leaves(spec)
    where = [""] + bspec.nested_paths(spec)
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        at = draw(st.sampled_from(where))
        pre = at + "." if at else ""
        sub = [x[len(pre) :] for x in leaves if x.startswith(pre)]
        k = draw(st.sampled_from(["set", "rand", "rand", "randdef", "mode"]))
        if k == "set":
            ops.append([k, at, draw(st.integers(0, 3))])
        elif k in ("rand", "randdef"):
            rng = draw(st.sampled_from([None, None, [0, 0], [3, 9], [-4, 5], [0, 2**40]]))
            ex = draw(st.lists(st.sampled_from(sub + ["nosuch"]), unique=True, max_size=4))
            ops.append([k, at, rng, ex])
        else:
            ops.append([k, at, draw(st.sampled_from(MODES)), draw(st.booleans())])
    if draw(st.integers(0, 3)) == 0:
        # a mode given again after some of the pins were given another one
        at, mode = draw(st.sampled_from(where)), draw(st.sampled_from(MODES))
        inner = [w for w in where if w.startswith(at)]
        ops.append(["mode", at, mode, draw(st.booleans())])
        if draw(st.booleans()):
            ops.append(["mode", draw(st.sampled_from(inner)), draw(st.sampled_from(MODES)), False])
        else:
            ops.append(["pin", draw(st.sampled_from(leaves)), draw(st.sampled_from(MODES))])
        ops.append(["mode", at, mode, draw(st.booleans())])
    return {
        "spec": spec,
        "m": m,
        "pins": pins,
        # modes given before the bind, to the bundle and to nested ones
        "pre": draw(st.lists(st.tuples(st.sampled_from(["", *where]), st.sampled_from(MODES)), max_size=3)),
        "again": draw(st.integers(0, 3)) == 0,
        "access": draw(st.booleans()),
        "rebind": draw(st.booleans()),
        "ops": ops,
        "seed": draw(st.integers(0, 99)),
    }


def run(p):
    from toffee import WriteMode

    quiet()
    spec = p["spec"]
    b = bspec.instance(p["m"], bspec.build_class(spec))
    modes = {"imme": WriteMode.Imme, "rise": WriteMode.Rise, "fall": WriteMode.Fall}

    def set_mode(x, mode, by_name):
        if by_name:
            r = getattr(x, "set_write_mode_as_" + mode)()
        else:
            r = x.set_write_mode(modes[mode])
        check(r is x, "set_write_mode does not return the bundle")

    for at, mode in p["pre"]:
        set_mode(bspec.get(b, at) if at else b, mode, p["seed"] % 2)
    if p["rebind"]:
        # a DUT with the same pins of other widths
        old = [[n, w, out] for (n, _, out), w in zip(p["pins"], [x[1] for x in p["pins"][::-1]])]
        b.bind(bspec.make_dut(old, label="old"), p["access"])
        if p["seed"] % 3:
            b.randomize_all()
    dut = bspec.make_dut(p["pins"])
    b.bind(dut, p["access"])
    names = bspec.pin_names(p["pins"])
    conn = bspec.connections(b, spec)
    outs = {x[0] for x in p["pins"] if x[2]}
    width = {x[0]: x[1] for x in p["pins"]}

    def targets(at):
        pre = at + "." if at else ""
        return {
            path[len(pre) :]: pin[4:]
            for path, pin in conn.items()
            if path.startswith(pre) and pin.startswith("dut.") and pin[4:] not in outs
        }

    mode = dict.fromkeys(names)
    for at, m in p["pre"]:
        for n in targets(at).values():
            mode[n] = m
    same({n: dut.pin(n).xdata.mode for n in names}, mode, "write modes after bind")
    tags = set()
    for op in p["ops"]:
        k, at = op[0], op[1]
        if k == "pin":
            n = targets("").get(at)
            if n is not None:
                sig = bspec.get(b, at)
                {"imme": sig.AsImmWrite, "rise": sig.AsRiseWrite, "fall": sig.AsFallWrite}[op[2]]()
                mode[n] = op[2]
            continue
        x = bspec.get(b, at) if at else b
        tgt = targets(at)
        before = {n: dut.pin(n).value for n in names}
        for n in names:
            dut.pin(n).xdata.writes.clear()
        tags.add(k + ("-nested" if at else ""))
        if k == "set":
            check(x.set_all(op[2]) is x, "set_all does not return the bundle")
            for n in tgt.values():
                before[n] = op[2]
            hit = set(tgt.values())
        elif k in ("rand", "randdef"):
            rng, ex = op[2], op[3]
            hit = {n for path, n in tgt.items() if path not in ex}
            if len(hit) < len(tgt):
                tags.add("excluded")
            kw = {} if rng is None else {"value_range": tuple(rng)}
            if ex:
                kw["exclude_signals"] = list(ex)
            calls = []
            if k == "rand":

                def func(lo, hi):
                    calls.append((lo, hi))
                    return 10_000 + len(calls)

                x.randomize_all(random_func=func, **kw)
            else:
                random.seed(p["seed"])
                x.randomize_all(**kw)
            drawn = []
            for n in hit:
                w = dut.pin(n).xdata.writes
                check(len(w) == 1, "pin %s was written %d times by randomize_all", n, len(w))
                lo, hi = rng if rng is not None else (0, 2 ** (width[n] or 1) - 1)
                v = w[0]
                if k == "rand":
                    check(10_000 < v <= 10_000 + len(calls), "pin %s got %s, not a drawn value", n, v)
                    same(calls[v - 10_001], (lo, hi), f"range drawn from for pin {n}")
                    drawn.append(v)
                else:
                    check(isinstance(v, int) and lo <= v <= hi, "pin %s got %s, out of range", n, v)
                before[n] = v
            if k == "rand":
                check(len(set(drawn)) == len(drawn), "one drawn value went to several pins")
                check(len(calls) == len(hit), "%d values drawn for %d pins", len(calls), len(hit))
        else:
            set_mode(x, op[2], op[3])
            for n in tgt.values():
                mode[n] = op[2]
            hit = set()
        same({n: dut.pin(n).value for n in names}, before, f"pins after {op}")
        same({n: dut.pin(n).xdata.mode for n in names}, mode, f"write modes after {op}")
        for n in names:
            if n not in hit:
                check(not dut.pin(n).xdata.writes, "%s wrote pin %s", op, n)
    if p["again"]:
        # the next bind puts its pins in the modes given last
        given = [*p["pre"], *[op[1:3] for op in p["ops"] if op[0] == "mode"]]
        dut = bspec.make_dut(p["pins"], label="new")
        b.bind(dut, p["access"])
        mode = dict.fromkeys(names)
        for at, m in given:
            for n in targets(at).values():
                mode[n] = m
        same({n: dut.pin(n).xdata.mode for n in names}, mode, "write modes after another bind")
        tags.add("again")
    n = len(targets(""))
    if outs:
        tags.add("outputs")
    if len(names) > n:
        tags.add("foreign")
    return n >= 2 and len(names) > n, tags


def default_range(p):
    """Over many draws the default function reaches exactly 0..2^width-1."""
    from toffee import Bundle

    quiet()
    random.seed(p["seed"])
    dut = bspec.make_dut([["a", p["w"], False]])
    b = Bundle.new_class_from_list(["a"])().bind(dut)
    lo, hi = p["rng"] if p["rng"] is not None else (0, 2 ** (p["w"] or 1) - 1)
    seen = set()
    for _ in range(60 * (hi - lo + 1)):
        b.randomize_all(*([] if p["rng"] is None else [tuple(p["rng"])]))
        seen.add(dut.a.value)
    same(sorted(seen), list(range(lo, hi + 1)), "values reached by randomize_all")
    return hi > lo, ["range" if p["rng"] else "width"]


ranges = st.fixed_dictionaries(
    {
        "seed": st.integers(0, 999),
        "w": st.integers(0, 4),
        "rng": st.one_of(
            st.none(), st.tuples(st.integers(-3, 3), st.integers(0, 8)).map(lambda t: [t[0], t[0] + t[1]])
        ),
    }
)

PARTS = [Part("bulk", plan, run, 1000), Part("reach", lambda: ranges, default_range, 60)]
