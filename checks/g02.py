"""Generated nested bundles cover exactly the described signals."""

import json
import os
import shutil
import tempfile

from hypothesis import strategies as st

from lib import bspec
from lib.common import check, quiet
from lib.runner import Part
from lib.scale import sizes

ID = "G02"
RULE = (
    "A case is a set of pin names split at underscores into a tree (names may be prefixes of others), "
    "written as the nested description; the generated source is executed and its last bundle bound to a "
    "DUT with these pins and others. Non-trivial: a pin at depth two or more next to another one."
)
ASSUMPTIONS = [
    "A node of the description is a signal when it holds an entry that is not a dictionary.",
    "Name parts are alphanumeric; the first part of a name is an identifier and no Bundle attribute.",
]

PARTS_ = ["a", "b", "ab", "io", "valid", "x0", "q"]
LATER = PARTS_ + ["0", "1", "in", "name"]


@st.composite
def plan(draw):
    names = []
    depth = draw(sizes(6, 14, 6))
    for _ in range(draw(sizes(14, 60, 1))):
        if names and draw(st.booleans()):
            base = draw(st.sampled_from(names)).split("_")
            base = base[: draw(st.integers(1, len(base)))]
        else:
            base = [draw(st.sampled_from(PARTS_))]
        base = base + draw(st.lists(st.sampled_from(LATER), max_size=3 if depth == 6 else 6))
        n = "_".join(base[:depth])
        if n not in names:
            names.append(n)
    # a node with many signals
    if draw(st.integers(0, 3)) == 0:
        base = draw(st.sampled_from(names))
        wide = [f"{base}_s{k}" for k in range(draw(sizes(24, 130, 6)))]
        names += [n for n in wide if n not in names]
    # a repeated substructure, as in a vector of equal interfaces
    if draw(st.booleans()):
        root = draw(st.sampled_from(names)).split("_")[0]
        for n in list(names):
            if n.split("_")[0] == root:
                m = "_".join(["w"] + n.split("_")[1:])
                if m not in names:
                    names.append(m)
        # ... but for one signal
        for _ in range(draw(st.integers(0, 1))):
            last = [n for n in names if n.split("_")[0] == "w"]
            k = names.index(draw(st.sampled_from(last)))
            other = names[k] + "zq"
            names[k:k + 1] = [other] if len(last) > 1 or draw(st.booleans()) else [names[k], other]
    return {
        "names": names,
        "order": draw(st.permutations(range(len(names)))),
        "mark": draw(st.sampled_from([0, 1, "", None, [1]])),
        "noise": draw(st.lists(st.sampled_from(["clk", "zz", "a_zz", "io_zz_a"]), unique=True)),
    }


def run(p):
    from toffee import Bundle

    import bundle_code_intel_gen as gen

    quiet()
    tree = {}
    for i in p["order"]:
        node = tree
        for part in p["names"][i].split("_"):
            node = node.setdefault(part, {})
        node["#"] = p["mark"]
    d = tempfile.mkdtemp(prefix="vp-g02-")
    try:
        src_path, out_path = os.path.join(d, "in.json"), os.path.join(d, "out.py")
        with open(src_path, "w", encoding="utf-8") as f:
            json.dump(tree, f)
        gen.main(src_path, out_path)
        with open(out_path, encoding="utf-8") as f:
            src = f.read()
    finally:
        shutil.rmtree(d)
    ns = {}
    try:
        exec(compile(src, "generated", "exec"), ns)
    except Exception as exc:
        check(False, "generated source does not execute: %r\n%s", exc, src)
    classes = [
        v for v in ns.values() if isinstance(v, type) and issubclass(v, Bundle) and v is not Bundle
    ]
    check(classes, "no bundle class generated")
    pins = p["names"] + [n for n in p["noise"] if n not in p["names"]]
    dut = bspec.make_dut(pins)
    b = classes[-1]().bind(dut)
    got = []
    for n, sig in b.all_signals():
        x = getattr(sig, "xdata", None)
        check(x is not None, "generated signal %s matches no described pin\n%s", n, src)
        got.append(x.name[4:])
    check(
        sorted(got) == sorted(p["names"]),
        "connected pins %s, described %s\n%s",
        sorted(got),
        sorted(p["names"]),
        src,
    )
    check(not Bundle.detect_multiple_connections(dut), "a pin is connected several times")
    tags = set()
    for n in p["names"]:
        if any(x.startswith(n + "_") for x in p["names"]):
            tags.add("signal-and-node")
    if "w" in tree:
        tags.add("repeated-structure")
    if len(classes) > 1:
        tags.add("nested")
    return len(p["names"]) >= 2 and any("_" in n for n in p["names"]), tags


PARTS = [Part("tree", plan, run, 800)]
