"""Generated bundle code recreates the selected interface."""

import keyword

from hypothesis import strategies as st

from lib import bspec
from lib.common import check, quiet, same
from lib.runner import Part
from lib.scale import sizes

ID = "G01"
RULE = (
    "A case is a pin set, a prefix/regex/dictionary and a width; the returned source is executed and the "
    "bundle it instantiates is bound to the DUT. Non-trivial: at least two pins selected and at least "
    "one not selected, or a signal list of several lines."
)
ASSUMPTIONS = [
    "Selected names are distinct Python identifiers (no keywords or Bundle attributes, no leading double underscore: Python mangles those in a class).",
    "max_width is at least 24 and bounds the lines of the signal list.",
]

WORDS = ["a", "b0", "valid", "ready", "bits_data", "addr", "x1", "z_mask", "very_long_signal_name_here", "_u"]


@st.composite
def names(draw):
    n = draw(sizes(30, 150, 1))
    out = []
    for _ in range(n):
        w = "_".join(draw(st.lists(st.sampled_from(WORDS), min_size=1, max_size=3)))
        if w not in out:
            out.append(w)
    return out


@st.composite
def plan(draw):
    kind = draw(st.sampled_from(["prefix", "regex", "dict"]))
    sel = draw(names())
    width = draw(st.one_of(st.none(), st.integers(24, 60), st.integers(24, 140)))
    noise = draw(st.lists(st.sampled_from(["clk", "zz_a", "io", "q_o_x", "reset"]), unique=True))
    if kind == "prefix":
        pre = draw(st.sampled_from(["", "io_", "in0_", "x", "_", "_p"]))
        pins = [pre + s for s in sel]
        if pre:
            # pins that hold the prefix elsewhere, or only a part of it
            noise += [
                draw(st.sampled_from(["u", "u_", pre + pre, pre[:-1]])) + pre + draw(st.sampled_from(sel + ["zz"]))
                for _ in range(draw(st.integers(0, 3)))
            ]
        rule = pre
    elif kind == "regex":
        rule = draw(st.sampled_from([r for r, _ in bspec.REGEXES]))
        pins = [bspec.INVERSE[rule](s) for s in sel]
        noise += [
            draw(st.sampled_from(["u", "u_", "io_", "p_"])) + bspec.INVERSE[rule](s) + draw(st.sampled_from(["", "_o", "_q"]))
            for s in draw(st.lists(st.sampled_from(sel), max_size=2))
        ]
        how = draw(st.sampled_from(["as-is"] * 3 + ["quote", "verbose", "both quotes", "groups"]))
        # other ways to write the same regex
        if how == "quote":
            rule = f'(?:{rule}|"no pin has a quote")'
        elif how == "both quotes":
            rule = f"(?:{rule}|\"a quote's no pin)"
        elif how == "groups":
            rule = "()" * draw(st.integers(1, 12)) + rule
        elif how == "verbose":
            rule = f"(?x)\n  {rule}\n  # a comment"
    else:
        style = draw(st.sampled_from(["p_", "p_", "_", "", "P", "turn"]))
        pins = sel[1:] + sel[:1] if style == "turn" else [style + s for s in sel]
        rule = dict(zip(sel, pins))
        if len(pins) > 1 and draw(st.booleans()):
            pins = pins[:-1]
        if draw(st.booleans()):
            rule = dict(reversed(list(rule.items())))
    pins = list(dict.fromkeys(pins + noise))
    return {
        "kind": kind,
        "rule": rule,
        "pins": draw(st.permutations(pins)),
        "width": width,
        "name": draw(st.sampled_from(["MyBundle", "B", "_X9", "AVeryLongBundleClassNameIndeed"])),
    }


def run(p):
    from toffee import Bundle

    import bundle_code_gen as gen

    quiet()
    rule = p["rule"]
    m = [p["kind"], rule]
    sel = {}
    for x in p["pins"]:
        n = bspec.apply_method(m, x)
        if n is not None:
            if n in sel or n.startswith("__") or not n.isidentifier() or keyword.iskeyword(n) or hasattr(Bundle(), n):
                return False, ["outside-domain"]
            sel[n] = x
    dut = bspec.make_dut(p["pins"])
    func = {
        "prefix": gen.gen_bundle_code_from_prefix,
        "regex": gen.gen_bundle_code_from_regex,
        "dict": gen.gen_bundle_code_from_dict,
    }[p["kind"]]
    kw = {} if p["width"] is None else {"max_width": p["width"]}
    width = p["width"] or 120
    if not sel:
        try:
            func(p["name"], dut, rule, **kw)
        except AssertionError:
            return False, ["nothing-selected"]
        check(False, "code generated although no pin is selected")
    arg = dict(rule) if p["kind"] == "dict" else rule
    src = func(p["name"], dut, arg, **kw)
    same(arg, rule, "the caller's rule")
    ns = {}
    try:
        exec(compile(src, "generated", "exec"), ns)
    except Exception as exc:
        check(False, "generated source does not execute: %r\n%s", exc, src)
    cls = ns.get(p["name"])
    check(isinstance(cls, type) and issubclass(cls, Bundle), "no bundle class %s", p["name"])
    made = [v for v in ns.values() if isinstance(v, Bundle)]
    check(len(made) == 1 and type(made[0]) is cls, "the source does not instantiate the bundle once")
    b = made[0]
    got = [n for n, _ in b.all_signals()]
    check(sorted(got) == sorted(sel), "signals %s, selected %s", sorted(got), sorted(sel))
    b.bind(dut)
    for n, pin in sel.items():
        same(bspec.pin_of(b, n), f"dut.{pin}", f"pin of {n}")
    free = Bundle.detect_unconnected_signals(dut)
    check(
        sorted(free) == sorted(set(p["pins"]) - set(sel.values())),
        "unconnected pins after binding the generated bundle: %s",
        free,
    )
    # width of the lines of the signal list
    lines = src.split("\n")
    body = [x for x in lines if x[:1] in ("\t", " ") and x.strip()]
    for line in body:
        w = len(line.expandtabs(4))
        if w > width:
            inside = [n for n in line.replace("\\", " ").replace(",", " ").split() if n in sel]
            check(
                len(inside) <= 1 and 4 + len(inside[0] if inside else "") + 3 > width,
                "line of %d columns, max_width is %d: %r",
                w,
                width,
                line,
            )
    tags = {p["kind"]}
    if len(body) > 1:
        tags.add("multi-line")
    return (len(sel) >= 2 and len(sel) < len(p["pins"])) or len(body) > 1, tags


PARTS = [Part("code", plan, run, 1500)]
