"""Generated bundle structures, their construction with toffee's public API, and
an independent account of which DUT pin each leaf must be connected to.

A spec is {"sigs":[..], "style":"attr"|"list"|"multi"|"mixed", "lists":[{"name","fmt","n","off"}],
"subs":[{"name","m":method,"spec"}], "blists":[{"name","fmt","n","off","spec"}]}
A method is ["prefix", p] | ["regex", r, kind..] | ["dict", {key: dut name}].
Leaf paths are written as toffee writes them: "a", "v[0]", "s.a", "m[1].a".
"""

import re

from hypothesis import strategies as st

from . import common  # noqa: F401
from .fakedut import FakeDUT

SIGS = ["a", "b", "c", "valid", "ready", "bits_d", "x", "sum", "q1", "Valid", "io_a", "_a", "_q_1"]
# some names begin with the name of another part
LISTS = ["v", "w", "v_e", "_w"]
SUBS = ["s", "t", "u", "s_t", "_u"]
BLISTS = ["k", "m", "k2"]
PREFIXES = ["", "io_", "in_", "x_", "io", "s_", "t_", "a", "s_t_"]

# regex templates: pattern, inverse (name -> a name the pattern maps to it)
REGEXES = [
    (r"^io_(.*)$", lambda n: "io_" + n),
    (r"(.*)_o$", lambda n: n + "_o"),
    (r"^p_(.*)_q$", lambda n: "p_" + n + "_q"),
    (r"^(.)_X_(.*)$", lambda n: n[0] + "_X_" + n[1:]),
    (r"^r(?:(zz)y)?_(.*)$", lambda n: "r_" + n),
    (r"^y_([a-z_]*)([0-9]*)$", lambda n: "y_" + n),
    (r"_f_(.+)$", lambda n: "u_f_" + n),
    (r"^(.)_Y_(.?)W(.*)$", lambda n: n[0] + "_Y_" + n[1:2] + "W" + n[2:]),
    (r"^g(?:(A)|B)?_(?:(C)D)?(.*)$", lambda n: "gB_" + n),
]
INVERSE = {r: f for r, f in REGEXES}


def apply_method(m, name):
    """The name a rule turns `name` into, None when it does not match."""
    kind, v = m
    if kind == "prefix":
        return name[len(v) :] if name.startswith(v) else None
    if kind == "regex":
        mo = re.search(v, name)
        if mo is None:
            return None
        return "".join(g or "" for g in mo.groups())
    for key, value in v.items():
        if value == name:
            return key
    return None


def invert_method(m, name):
    kind, v = m
    if kind == "prefix":
        return v + name
    if kind == "regex":
        return INVERSE[v](name)
    return v.get(name)


def element_names(lst):
    return [lst["fmt"].replace("#", str(i + lst["off"])) for i in range(lst["n"])]


def own_leaves(spec):
    """(path relative to the bundle, local name) of the bundle's own signals."""
    out = [(s, s) for s in spec["sigs"]]
    for lst in spec["lists"]:
        out += [(f"{lst['name']}[{i}]", n) for i, n in enumerate(element_names(lst))]
    return out


def children(spec):
    """(path segment, method, spec) of every nested bundle."""
    out = [(s["name"], s["m"], s["spec"]) for s in spec["subs"]]
    for bl in spec["blists"]:
        for i, p in enumerate(element_names(bl)):
            p = bl.get("over", {}).get(str(i), p)
            out.append((f"{bl['name']}[{i}]", ["prefix", p], bl["spec"]))
    return out


def leaves(spec, prefix=""):
    out = [prefix + p for p, _ in own_leaves(spec)]
    for seg, _, sub in children(spec):
        out += leaves(sub, prefix + seg + ".")
    return out


def needs(spec):
    """path -> the name the bundle must see *after* its own rule (None: impossible)."""
    out = {p: n for p, n in own_leaves(spec)}
    for seg, m, sub in children(spec):
        for p, n in needs(sub).items():
            out[f"{seg}.{p}"] = None if n is None else invert_method(m, n)
    return out


def candidates(m, spec, name, prefix=""):
    """Every leaf path a DUT pin called `name` could be connected to."""
    n = apply_method(m, name)
    if n is None:
        return []
    out = [prefix + p for p, local in own_leaves(spec) if local == n]
    for seg, cm, sub in children(spec):
        out += candidates(cm, sub, n, prefix + seg + ".")
    return out


class Expected:
    """Which pin each leaf must have; `loose` leaves have several candidates."""

    def __init__(self, m, spec, pins):
        self.paths = leaves(spec)
        self.by_pin = {p: candidates(m, spec, p) for p in pins}
        self.by_path = {p: [] for p in self.paths}
        for pin, paths in self.by_pin.items():
            for p in paths:
                self.by_path[p].append(pin)
        self.exact = {}
        self.loose = {}
        for path, ps in self.by_path.items():
            if not ps:
                self.exact[path] = None
            elif len(ps) == 1 and len(self.by_pin[ps[0]]) == 1:
                self.exact[path] = ps[0]
            else:
                self.loose[path] = ps

    def pins_untouched(self):
        return [p for p, c in self.by_pin.items() if not c]


# ------------------------------------------------------------------ building


class XPortFake:
    """What toffee uses of picker's XPort."""

    def __init__(self, pins):
        self.pins = pins

    def GetKeys(self):
        return tuple(self.pins)

    def __getitem__(self, key):
        return self.pins[key]


def level(self):
    """Body of a property of some bundles: the number of signals that are set."""
    return sum(getattr(self, s).value > 0 for s in SIGS if hasattr(self, s))


def build_class(spec, name="B", plain=False):
    """`plain`: everything in the attributes of one class."""
    from toffee import Bundle, BundleList, Signal, SignalList, Signals

    attrs = {}
    style, sigs = spec.get("style"), spec["sigs"]
    if style in ("quick", "xport"):
        if not (spec["lists"] or spec["subs"] or spec["blists"]):
            if style == "quick":
                return Bundle.new_class_from_list(list(sigs))
            return Bundle.new_class_from_xport(XPortFake({s: None for s in sigs}))
        style = "list"
    if style == "list":
        attrs["signals"] = list(sigs)
    elif style == "multi" and sigs:
        made = Signals(len(sigs))
        attrs.update(zip(sigs, [made] if len(sigs) == 1 else made))
    elif style == "mixed":
        attrs["signals"] = list(sigs[1:])
        attrs.update({s: Signal() for s in sigs[:1]})
    else:
        for s in sigs:
            attrs[s] = Signal()

    if spec.get("prop"):
        # a property that reads a signal; before the bind it has no value
        attrs["level"] = property(level)

    def rule(off):
        return None if off == 0 else (lambda i: str(i + off))

    classes = {x["name"]: build_class(x["spec"], name + "N") for x in spec["subs"] + spec["blists"]}

    def parts():
        out = {}
        for lst in spec["lists"]:
            out[lst["name"]] = SignalList(lst["fmt"], lst["n"], rule(lst["off"]))
        for sub in spec["subs"]:
            out[sub["name"]] = instance(sub["m"], classes[sub["name"]])
        for bl in spec["blists"]:
            out[bl["name"]] = BundleList(
                classes[bl["name"]], bl["fmt"], bl["n"], rule(bl["off"])
            )
        return out

    how = None if plain else spec.get("how")
    if how == "init":
        # nested parts made by the constructor

        def __init__(self):
            super(made_class, self).__init__()
            for k, v in parts().items():
                setattr(self, k, v)

        attrs["__init__"] = __init__
        made_class = type(name, (Bundle,), attrs)
        return made_class
    if how == "param":
        # instances of one class with different parts

        def __init__(self, full=True):
            super(made_class, self).__init__()
            if full:
                for k, v in parts().items():
                    setattr(self, k, v)

        attrs["__init__"] = __init__
        made_class = type(name, (Bundle,), attrs)
        made_class(False).bind(make_dut([*sigs, "zz"], label="other"))
        return made_class
    if how == "early":
        # everything made before the constructor of Bundle runs

        def __init__(self):
            for k, v in attrs_early.items():
                setattr(self, k, Signal() if isinstance(v, Signal) else v)
            for k, v in parts().items():
                setattr(self, k, v)
            super(made_class, self).__init__()

        attrs_early = {k: v for k, v in attrs.items() if k in sigs}
        made_class = type(name, (Bundle,), {k: v for k, v in attrs.items() if k not in sigs} | {"__init__": __init__})
        return made_class
    if how == "inherit":
        # signals of the base class, nested parts of the derived class
        return type(name, (type(name + "Base", (Bundle,), attrs),), parts())
    if how == "base":
        # nested parts of the base class, signals of the derived class
        return type(name, (type(name + "Base", (Bundle,), parts()),), attrs)
    return type(name, (Bundle,), dict(attrs, **parts()))


def instance(m, cls):
    kind, v = m
    if kind == "prefix":
        return cls.from_prefix(v)
    if kind == "regex":
        return cls.from_regex(v)
    return cls.from_dict(dict(v))


def get(bundle, path):
    obj = bundle
    for part in re.findall(r"[A-Za-z_]\w*|\[\d+\]", path):
        obj = obj[int(part[1:-1])] if part[0] == "[" else getattr(obj, part)
    return obj


def pin_of(bundle, path):
    """Name of the connected pin's xdata, 'DUMMY', or 'RAISES'."""
    try:
        sig = get(bundle, path)
        xd = sig.xdata
    except AttributeError:
        return "RAISES"
    if xd is None:
        return "DUMMY"
    return xd.name


def nested_paths(spec, prefix=""):
    """Paths of all nested bundles ('' for the bundle itself excluded)."""
    out = []
    for seg, _, sub in children(spec):
        out.append(prefix + seg)
        out += nested_paths(sub, prefix + seg + ".")
    return out


# ---------------------------------------------------------------- generation

# more than ten elements: some names begin with the name of another element
COUNTS = st.sampled_from([1, 2, 2, 3, 3] * 5 + [11, 12])

FEW = st.integers(1, 2)


@st.composite
def specs(draw, depth=2, lists=True, top=True, small=False):
    if top and depth == 2 and draw(st.integers(0, 9)) == 9:
        depth, small = 3, True
    sigs = draw(st.lists(st.sampled_from(SIGS), unique=True, max_size=4, min_size=0))
    out = {
        "sigs": sigs,
        "style": draw(st.sampled_from(["attr", "attr", "list", "multi", "mixed", "quick", "xport"])),
        "how": draw(st.sampled_from([None, None, None, "init", "early", "param", "inherit", "base"])),
        "prop": draw(st.integers(0, 4)) == 0,
        "lists": [],
        "subs": [],
        "blists": [],
    }
    if lists:
        for nm in draw(st.lists(st.sampled_from(LISTS), unique=True, max_size=2)):
            fmt = draw(st.sampled_from([nm + "_#", nm + "#", "#" + nm, nm + "_#_e", nm + "#_#_#"]))
            out["lists"].append(
                {
                    "name": nm,
                    "fmt": fmt,
                    "n": draw(FEW if small else COUNTS),
                    "off": draw(st.sampled_from([0, 0, 1, 9])),
                }
            )
    if depth > 0:
        for nm in draw(st.lists(st.sampled_from(SUBS), unique=True, max_size=2)):
            sub = draw(specs(depth=depth - 1, lists=lists, top=False, small=small))
            out["subs"].append({"name": nm, "m": draw(methods(sub)), "spec": sub})
        if lists:
            for nm in draw(st.lists(st.sampled_from(BLISTS), unique=True, max_size=2 if depth == 1 else 1)):
                out["blists"].append(
                    {
                        "name": nm,
                        "fmt": draw(st.sampled_from([nm + "#_", nm + "_#_", "#" + nm, nm + "#_#_#_"])),
                        "n": draw(FEW if small else COUNTS if depth == 1 else st.integers(1, 3)),
                        "off": draw(st.sampled_from([0, 0, 1])),
                        "spec": draw(specs(depth=depth - 1, lists=lists, top=False, small=small)),
                    }
                )
    if not (out["sigs"] or out["lists"] or out["subs"] or out["blists"]):
        out["sigs"] = ["a"]
    for bl in out["blists"]:
        bl["n"] = min(bl["n"], max(1, 48 // len(leaves(bl["spec"]))))
    if top:
        # binding takes time quadratic in the signals and keys
        while len(leaves(out)) > 80:
            (out["blists"] or out["subs"] or out["lists"]).pop()
    return out


@st.composite
def methods(draw, spec):
    kind = draw(st.sampled_from(["prefix", "prefix", "regex", "dict"]))
    if kind == "prefix":
        return ["prefix", draw(st.sampled_from(PREFIXES))]
    if kind == "regex":
        return ["regex", draw(st.sampled_from([r for r, _ in REGEXES]))]
    keys = sorted({n for n in needs(spec).values() if n is not None})
    keep = [k for k in keys if draw(st.integers(0, 5)) > 0]
    style = draw(st.sampled_from(["fresh", "same", "rotate"]))
    if style == "fresh":
        values = ["d_" + k for k in keep]
    elif style == "same":
        values = list(keep)
    else:
        r = draw(st.integers(0, 2))
        values = keep[r:] + keep[:r]
    d = dict(zip(keep, values))
    if draw(st.integers(0, 4)) == 0:
        d["nokey"] = "d_none"
    return ["dict", d]


@st.composite
def pins_for(draw, m, spec, drop=True, noise=True):
    """Pin names of a DUT the bundle is meant for, minus some, plus noise."""
    names = []
    for p, n in needs(spec).items():
        if n is None:
            continue
        full = invert_method(m, n)
        if full is not None and full.isidentifier() and full not in names:
            names.append(full)
    if drop and names and draw(st.booleans()):
        names = [n for n in names if draw(st.integers(0, 6)) > 0]
    if noise:
        for n in draw(
            st.lists(
                st.sampled_from(
                    ["clk", "io_zz", "zz", "in_a", "io_a", "x_b", "a", "v_0", "s_a"]
                ),
                unique=True,
                max_size=3,
            )
        ):
            if n not in names:
                names.append(n)
    if not names:
        names = ["clk"]
    return names


def make_dut(pins, label="dut", **kw):
    """pins: list of names, or of [name, width, is_out]."""
    d = {}
    for p in pins:
        if isinstance(p, str):
            d[p] = {}
        else:
            d[p[0]] = {"width": p[1], "is_out": p[2]}
    return FakeDUT(d, label=label, **kw)


def pin_names(pins):
    return [p if isinstance(p, str) else p[0] for p in pins]


@st.composite
def with_ports(draw, pins):
    return [
        [p, draw(st.sampled_from([1, 2, 8, 16, 0, 64, 32, 33, 63, 65, 100, 128, 5])), draw(st.integers(0, 3)) == 0]
        for p in pins
    ]


def build_attrs(spec, name="B"):
    """The class attributes of `spec`; shared when two classes are made from them."""
    cls = build_class(spec, name, plain=True)
    return {k: v for k, v in vars(cls).items() if not k.startswith("__")}


def connections(bundle, spec):
    return {p: pin_of(bundle, p) for p in leaves(spec)}


@st.composite
def tops(draw, **kw):
    """A spec, its top-level method and a fitting pin list."""
    spec = draw(specs(**kw))
    m = draw(methods(spec))
    return spec, m


SMALL = st.integers(0, 255)
