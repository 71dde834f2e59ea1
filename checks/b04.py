"""Bundle.assign writes exactly what the dictionary says."""

from hypothesis import strategies as st

from lib import bspec
from lib.common import check, quiet, same
from lib.runner import Part

ID = "B04"
RULE = (
    "A case is a generated bundle bound to a DUT (some pins missing, some outputs) and 1..3 generated "
    "dictionaries, multilevel or flat, with partial and wrong names, '*' entries at any level and "
    "objects with __bundle_assign__; pin values, error log and the dictionaries are compared with a "
    "reference interpretation. Non-trivial: at least two pins must change and a nested bundle, list or "
    "'*' is addressed."
)
ASSUMPTIONS = [
    "Values of lists have the list's length (shorter ones are an assertion error by design).",
    "Flat dictionaries use '*' only at the top level.",
]

BAD = ["nosuch", "name", "bound", "zz", "A", ""]
VALUES = st.one_of(st.integers(0, 9), st.sampled_from([0, 1, 255, 2**32, 2**64 - 1]))


@st.composite
def item(draw, spec, top=True):
    """A multilevel dictionary as a list of [name, kind, content] (order kept)."""
    out = []
    if draw(st.integers(0, 3)) == 0:
        out.append(["*", "val", draw(VALUES)])
    for s in spec["sigs"]:
        if draw(st.booleans()):
            out.append([s, "val", draw(VALUES)])
    for lst in spec["lists"]:
        if draw(st.booleans()):
            out.append([lst["name"], "list", [draw(VALUES) for _ in range(lst["n"])]])
    for sub in spec["subs"]:
        if draw(st.integers(0, 2)) > 0:
            if draw(st.integers(0, 6)) == 0:
                out.append([sub["name"], "obj", draw(st.integers(0, 99))])
            else:
                out.append([sub["name"], "dict", draw(item(sub["spec"], False))])
    for bl in spec["blists"]:
        if draw(st.integers(0, 2)) > 0:
            out.append(
                [bl["name"], "dicts", [draw(item(bl["spec"], False)) for _ in range(bl["n"])]]
            )
    if draw(st.integers(0, 3)) == 0:
        out.append([draw(st.sampled_from(BAD)), "val", draw(VALUES)])
    return draw(st.permutations(out))


@st.composite
def flat(draw, spec, prefix="", top=True):
    out = []
    if top and draw(st.integers(0, 3)) == 0:
        out.append(["*", "val", draw(VALUES)])
    for s in spec["sigs"]:
        if draw(st.booleans()):
            out.append([prefix + s, "val", draw(VALUES)])
    for lst in spec["lists"]:
        if draw(st.booleans()):
            out.append([prefix + lst["name"], "list", [draw(VALUES) for _ in range(lst["n"])]])
    for sub in spec["subs"]:
        out += draw(flat(sub["spec"], f"{prefix}{sub['name']}.", False))
    for bl in spec["blists"]:
        if draw(st.integers(0, 3)) == 0:
            out.append(
                [
                    prefix + bl["name"],
                    "flats",
                    [draw(flat(bl["spec"], "", False)) for _ in range(bl["n"])],
                ]
            )
        else:
            for i in range(bl["n"]):
                out += draw(flat(bl["spec"], f"{prefix}{bl['name']}[{i}].", False))
    if draw(st.integers(0, 4)) == 0:
        bad = draw(st.sampled_from(["nosuch", "zz.a", "q[0].a", "k[9].a", "name", "s.nosuch"]))
        if not (bad == "s.nosuch" and not any(s["name"] == "s" for s in spec["subs"])):
            out.append([prefix + bad, "val", draw(VALUES)])
    if prefix == "":
        # this is one dictionary: every key once
        out = list({x[0]: x for x in out}.values())
    if top:
        out = draw(st.permutations(out))
    return out


@st.composite
def plan(draw):
    spec, m = draw(bspec.tops())
    pins = draw(bspec.with_ports(draw(bspec.pins_for(m, spec))))
    acts = []
    for _ in range(draw(st.integers(1, 3))):
        form = draw(st.sampled_from(["multi", "multi", "flat", "flat", "obj", "junk"]))
        if form == "multi":
            acts.append([form, draw(item(spec))])
        elif form == "flat":
            acts.append([form, draw(flat(spec))])
        elif form == "obj":
            acts.append([form, draw(st.integers(0, 99))])
        else:
            acts.append([form, None])
    return {"spec": spec, "m": m, "pins": pins, "acts": acts}


class Obj:
    """An object that assigns itself."""

    def __init__(self, tag, log):
        self.tag = tag
        self.log = log

    def __bundle_assign__(self, bundle):
        self.log.append((self.tag, bundle))

    def __eq__(self, other):
        return isinstance(other, Obj) and other.tag == self.tag


def build(content, log):
    out = {}
    for name, kind, c in content:
        if kind in ("val", "list"):
            out[name] = c if kind == "val" else list(c)
        elif kind == "obj":
            out[name] = Obj(c, log)
        elif kind == "dict":
            out[name] = build(c, log)
        else:
            out[name] = [build(x, log) for x in c]
    return out


class Ref:
    """What the pins must look like afterwards."""

    def __init__(self, spec, drivable):
        self.spec = spec
        self.drivable = drivable
        self.vals = {}
        self.unknown = []
        self.objs = []
        self.tags = set()

    def star(self, prefix, value):
        self.tags.add("star" + ("-nested" if prefix else ""))
        for path in self.drivable:
            if path.startswith(prefix):
                self.vals[path] = value

    def multi(self, spec, prefix, content):
        for name, kind, c in content:
            if name == "*":
                self.star(prefix, c)
        subs = {s["name"]: s["spec"] for s in spec["subs"]}
        bls = {b["name"]: b for b in spec["blists"]}
        lists = {x["name"]: x for x in spec["lists"]}
        for name, kind, c in content:
            if name == "*":
                continue
            if name in spec["sigs"]:
                self.vals[prefix + name] = c
            elif name in lists:
                self.tags.add("list")
                for i, v in enumerate(c):
                    self.vals[f"{prefix}{name}[{i}]"] = v
            elif name in subs:
                if kind == "obj":
                    self.objs.append((c, prefix + name))
                else:
                    self.tags.add("sub")
                    self.multi(subs[name], f"{prefix}{name}.", c)
            elif name in bls:
                self.tags.add("blist")
                for i, x in enumerate(c):
                    self.multi(bls[name]["spec"], f"{prefix}{name}[{i}].", x)
            else:
                self.unknown.append(name)

    def flat(self, prefix, content):
        leaves = bspec.leaves(self.spec)
        for name, kind, c in content:
            if name == "*":
                self.star(prefix, c)
        for name, kind, c in content:
            if name == "*":
                continue
            full = prefix + name
            if kind == "flats" and any(p.startswith(full + "[0].") for p in leaves):
                self.tags.add("blist")
                for i, x in enumerate(c):
                    self.flat(f"{full}[{i}].", x)
            elif kind == "list" and full + "[0]" in leaves:
                self.tags.add("list")
                for i, v in enumerate(c):
                    self.vals[f"{full}[{i}]"] = v
            elif kind == "val" and full in leaves:
                if "." in full:
                    self.tags.add("sub")
                self.vals[full] = c
            else:
                self.unknown.append(name)


def run(p):
    cap = quiet("ERROR")
    spec = p["spec"]
    dut = bspec.make_dut(p["pins"])
    b = bspec.instance(p["m"], bspec.build_class(spec)).bind(dut)
    conn = bspec.connections(b, spec)
    outs = {x[0] for x in p["pins"] if x[2]}
    names = bspec.pin_names(p["pins"])
    drivable = [
        path for path, pin in conn.items() if pin.startswith("dut.") and pin[4:] not in outs
    ]
    for i, n in enumerate(names):
        dut.pin(n).xdata.raw = 7000 + i
    changed, tags = 0, set()
    for form, content in p["acts"]:
        cap.clear()
        log = []
        before = {n: dut.pin(n).value for n in names}
        for n in names:
            dut.pin(n).xdata.writes.clear()
        ref = Ref(spec, drivable)
        if form == "multi":
            it, copy = build(content, log), build(content, log)
            b.assign(it)
            ref.multi(spec, "", content)
        elif form == "flat":
            it, copy = build(content, log), build(content, log)
            b.assign(it, multilevel=False)
            ref.flat("", content)
        elif form == "obj":
            it, copy = Obj(content, log), Obj(content, log)
            b.assign(it)
            ref.objs.append((content, None))
        else:
            it = copy = 5
            b.assign(it)
        same(it, copy, "the caller's dictionary after assign")
        if form in ("multi", "flat"):
            check(list(it) == list(copy), "assign reorders the caller's dictionary")
        want = dict(before)
        for path, v in ref.vals.items():
            if conn[path].startswith("dut."):
                want[conn[path][4:]] = v
        got = {n: dut.pin(n).value for n in names}
        for n in names:
            check(
                got[n] == want[n],
                "%s assign %s: pin %s is %s, expected %s",
                form,
                content,
                n,
                got[n],
                want[n],
            )
        touched = {conn[path][4:] for path in ref.vals if conn[path].startswith("dut.")}
        for n in names:
            if n not in touched:
                check(not dut.pin(n).xdata.writes, "assign wrote pin %s, which it does not name", n)
        changed += len(touched)
        # the objects got the right bundles
        want_objs = [(t, b if path is None else bspec.get(b, path)) for t, path in ref.objs]
        check(len(log) == len(want_objs), "__bundle_assign__ called %d times", len(log))
        for t, obj in log:
            check(
                any(t == t2 and obj is o2 for t2, o2 in want_objs),
                "__bundle_assign__ was handed the wrong bundle",
            )
        # errors
        errs = cap.of("ERROR")
        if form == "junk":
            check(cap.of("CRITICAL"), "assigning a non-dictionary reports nothing")
            continue
        check(
            len(errs) == len(ref.unknown),
            "%d unknown names %s, but these errors: %s",
            len(ref.unknown),
            ref.unknown,
            errs,
        )
        for n in ref.unknown:
            check(
                any(n.split(".")[-1] in e for e in errs), "no error names %r: %s", n, errs
            )
        if ref.unknown:
            tags.add("unknown")
        if ref.objs:
            tags.add("object")
        tags |= ref.tags
        tags.add(form)
    return changed >= 2 and bool(tags & {"star", "star-nested", "list", "sub", "blist"}), tags


PARTS = [Part("assign", plan, run, 1200)]
