"""mark_function records functions for exactly the selected bins."""

import importlib.util
import linecache
import os
import re
import shutil
import sys
import tempfile

from hypothesis import strategies as st

from lib.common import check, quiet, same
from lib.runner import Part
from lib.scale import sizes

ID = "F03"
RULE = (
    "A case is a generated source file (functions, decorated and async ones, methods, class and static "
    "methods, nested classes, local functions), a group with generated bin names, and a sequence of "
    "mark_function calls (exact names, wildcards, regular expressions, lists of selectors and "
    "functions, failing calls) mixed with samples and resets; after each step the marks and counts in "
    "as_dict() are compared with a reference. Non-trivial: one call selected some bins and not all, and "
    "some bin was marked by two calls."
)
ASSUMPTIONS = [
    "Functions are names, Python functions or methods from a readable source file.",
    "The class part of the name of an inherited or nested method may be its qualified or its own name.",
]

ALPHA = "ab01_.*?+[]()^$ "
bin_name = st.one_of(
    st.text("ab01_", min_size=1, max_size=4),
    st.text("ab0_.*?[", min_size=1, max_size=4),
    st.sampled_from(["low", "high", "low_0", "low_1", "a.b", "bin[0]", "bin[1]", "mid high"]),
    st.sampled_from(["LOW", "Low", "High", "A", "aB", "B_0", "l\u00f6w"]),
)


@st.composite
def regex(draw):
    """A valid regular expression without * and ?."""
    out = ""
    for _ in range(draw(st.integers(1, 3))):
        out += draw(
            st.sampled_from(
                ["a", "b", "0", "_", ".", "[ab]", "[^a]", "a+", "(a|b)", "(low|high)", "l", "\\d", "\\w+", "$", "^"]
            )
        )
    return out


def selector(names):
    # surrounding blanks of a selector are not specified
    return raw_selector(names).filter(lambda s: s.strip() == s and s)


@st.composite
def raw_selector(draw, names):
    k = draw(st.integers(0, 9))
    if k < 3 and names:
        return draw(st.sampled_from(names))
    if k < 6:
        base = draw(st.sampled_from(names)) if names else "a"
        i = draw(st.integers(0, len(base)))
        j = draw(st.integers(i, len(base)))
        s = base[:i] + draw(st.sampled_from(["*", "?", "*"])) + base[j:]
        s = s.replace("[", "?").replace("]", "?")
        if draw(st.integers(0, 4)) == 0:
            i = draw(st.integers(0, len(s)))
            s = s[:i] + draw(st.sampled_from(["[ab]", "[01_]", "[!a]", "[!_0]", "[lb]", "[h]"])) + s[i:]
            s += "*" * ("*" not in s and "?" not in s)
        return s
    if k < 7 and names:
        base = draw(st.sampled_from(names))
        return re.escape(base[: draw(st.integers(1, len(base)))]).replace("*", ".").replace("?", ".")
    if k < 9:
        return draw(regex())
    return draw(st.sampled_from(["*", "nothing", "?*", "zz*"]))


FUNCS = ["plain", "deco", "twice", "coro", "K.m", "K.c", "K.s", "K.N.m", "obj.m", "obj.c", "sub.m", "nobj.m", "local", "Sub.own"]


@st.composite
def func(draw):
    if draw(st.integers(0, 2)) == 0:
        names = ["t1", "test_x", "f.py:1-2::t", "", " t1", "two words ", "T1", "t" * 70]
        return ["str", draw(st.sampled_from(names) | st.integers(0, 40).map("test_{}".format))]
    return ["fn", draw(st.sampled_from(FUNCS))]


@st.composite
def plan(draw):
    names = draw(st.lists(bin_name, min_size=1, max_size=draw(sizes(5, 24, 5)), unique=True))
    # bins of a single condition are called anonymous
    anonymous = draw(st.integers(0, 9)) == 0
    if anonymous:
        names = ["anonymous"]
    other = draw(st.lists(bin_name, min_size=1, max_size=3, unique=True))
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.sampled_from(["mark"] * 6 + ["sample", "reset", "unknown"]))
        if k != "mark":
            ops.append([k, draw(st.booleans())])
            continue
        p = draw(st.integers(0, 3)) == 0
        sels = draw(st.lists(selector(other if p else names), min_size=1, max_size=draw(sizes(3, 8, 3))))
        if draw(st.integers(0, 2)):
            sels = sels[0]
        fs = draw(st.lists(func(), min_size=1, max_size=draw(sizes(3, 30, 3))))
        form = draw(st.sampled_from(["one", "list", "tuple"]))
        if draw(st.integers(0, 7)) == 0:
            sels = None  # default
        fs = fs[:1] if form == "one" else fs
        quietly = draw(st.integers(0, 2)) == 0
        ops.append(["mark", p, sels, fs, form, draw(st.booleans()), quietly])
    return {
        "names": names,
        "anonymous": anonymous,
        "other": other,
        "ops": ops,
        "pad": [draw(st.integers(0, 3)) for _ in range(9)],
    }


SRC = [
    ("plain", ["def plain(a, b=1):", "", "    # text", "", "    return a"]),
    ("deco", ["@ident", "def deco():", '    """A', "", '    doc."""', "    pass"]),
    ("twice", ["@ident", "@wraps_it", "def twice(x):", "    y = x", "    return y"]),
    ("coro", ["async def coro():", "    return 1"]),
]


def source(pad):
    """The text and {name: (start, end, plain name, [accepted class parts])}."""
    lines = ["import functools", "def ident(f):", "    return f", "def wraps_it(f):"]
    lines += ["    @functools.wraps(f)", "    def inner(*a):", "        return f(*a)", "    return inner"]
    where = {}
    pad = list(pad)

    def gap(indent=""):
        n = pad.pop(0)
        lines.extend([indent + "# x"] * n)

    def put(body, indent=""):
        start = len(lines) + 1
        lines.extend(indent + x for x in body)
        return start, len(lines)

    for name, body in SRC:
        gap()
        where[name] = put(body) + (name, [None])
    gap()
    put(["class K:"])
    m = put(["def m(self):", "    return 1"], "    ")
    gap("    ")
    c = put(["@classmethod", "def c(cls):", "    z = 1", "    return z"], "    ")
    s = put(["@staticmethod", "def s():", "    return 2"], "    ")
    put(["class N:"], "    ")
    n = put(["def m(self):", "    x = 1", "", "    return x"], "        ")
    where["K.m"] = where["obj.m"] = m + ("m", ["K"])
    where["K.c"] = where["obj.c"] = c + ("c", ["K"])
    where["K.s"] = s + ("s", ["K"])
    where["K.N.m"] = n + ("m", ["K.N", "N"])
    where["nobj.m"] = n + ("m", ["K.N", "N"])
    where["sub.m"] = m + ("m", ["Sub", "K"])
    gap()
    put(["class Sub(K):"])
    where["Sub.own"] = put(["def own(self, a,", "        b):", "    pass"], "    ") + ("own", ["Sub"])
    put(["obj = K()", "sub = Sub()", "nobj = K.N()", "def outer():"])
    gap("    ")
    where["local"] = put(["def local(q):", "    return q"], "    ") + (
        "local",
        ["outer.<locals>"],
    )
    put(["    return local", "local = outer()"])
    return "\n".join(lines) + "\n", where


def wild(pattern, name):
    """Shell wildcard with *, ? and complete sets of single characters."""
    if not pattern:
        return not name
    if pattern[0] == "[":
        end = pattern.index("]")
        chars = pattern[1:end]
        hit = name[:1] in chars[1:] if chars[0] == "!" else name[:1] in chars
        return bool(name) and hit != (chars[0] == "!") and wild(pattern[end + 1 :], name[1:])
    if pattern[0] == "*":
        return any(wild(pattern[1:], name[i:]) for i in range(len(name) + 1))
    return bool(name) and pattern[0] in ("?", name[0]) and wild(pattern[1:], name[1:])


def select(names, sel):
    if sel in names:
        return [sel]
    if "*" in sel or "?" in sel:
        return [n for n in names if wild(sel, n)]
    return [n for n in names if re.compile(sel).match(n)]


def run(p):
    quiet()
    tmp = tempfile.mkdtemp(prefix="vp-f03-")
    try:
        return run_in(p, tmp)
    finally:
        shutil.rmtree(tmp)


def run_in(p, tmp):
    from toffee.funcov import CovGroup, Eq

    text, where = source(p["pad"])
    path = os.path.join(tmp, "marked.py")
    with open(path, "w") as f:
        f.write(text)
    linecache.checkcache()
    spec = importlib.util.spec_from_file_location("vp_marked", path)
    mod = importlib.util.module_from_spec(spec)
    dont, sys.dont_write_bytecode = sys.dont_write_bytecode, True
    sys.modules["vp_marked"] = mod
    try:
        spec.loader.exec_module(mod)
        return body(p, path, where, mod, CovGroup, Eq)
    finally:
        sys.dont_write_bytecode = dont
        del sys.modules["vp_marked"]


def resolve(mod, name):
    x = mod
    for part in name.split("."):
        x = getattr(x, part)
    return x


def accepted(path, where, f):
    """The texts one function may be recorded as."""
    if f[0] == "str":
        return [f[1]]
    start, end, name, classes = where[f[1]]
    base = f"{os.path.abspath(path)}:{start}-{end}::"
    return [base + (f"{c}::" if c else "") + name for c in classes]


def body(p, path, where, mod, CovGroup, Eq):
    names, other = list(p["names"]), list(p["other"])
    group = CovGroup("g")

    class T:
        value = 0

    t = T()
    bins = Eq(0) if p["anonymous"] else {n: Eq(i % 2) for i, n in enumerate(names)}
    group.add_watch_point(t, bins, name="pt", once=False)
    group.add_watch_point(t, {n: Eq(1) for n in other}, name="other", once=False)
    allnames = {"pt": names, "other": other}
    want = {q: {n: [] for n in ns} for q, ns in allnames.items()}  # accepted-text tuples
    hits = {q: {n: 0 for n in ns} for q, ns in allnames.items()}
    partial = twice = False
    tags = set()

    def compare(what):
        d = group.as_dict()
        for x in d["points"]:
            q = x["name"]
            got = {k: v for k, v in x["functions"].items() if v}
            same(
                sorted(got), sorted(n for n, fs in want[q].items() if fs), f"{what}: marked bins of {q}"
            )
            for n, fs in want[q].items():
                if not fs:
                    continue
                g = list(got[n])
                same(len(set(g)), len(g), f"{what}: duplicate marks in {g}")
                for a in fs:
                    check(any(y in a for y in g), "%s: %r is not marked for bin %r: %r", what, a, n, g)
                for y in g:
                    check(any(y in a for a in fs), "%s: %r marked for bin %r, expected %r", what, y, n, fs)
            same({b["name"]: b["hints"] for b in x["bins"]}, hits[q], f"{what}: counts of {q}")

    for i, op in enumerate(p["ops"]):
        what = f"step {i} {op}"
        tags.add(op[0])
        if op[0] == "sample":
            t.value = int(op[1])
            group.sample()
            for j, n in enumerate(names):
                hits["pt"][n] += (0 if p["anonymous"] else j % 2) == t.value
            for n in other:
                hits["other"][n] += t.value
        elif op[0] == "reset":
            q = "pt" if op[1] else "other"
            group.reset_point(q)
            hits[q] = {n: 0 for n in hits[q]}
        elif op[0] == "unknown":
            if op[1]:
                check(
                    group.mark_function("nope", "f", raise_error=False) is group,
                    "%s: not quiet about an unknown point",
                    what,
                )
            else:
                try:
                    group.mark_function("nope", "f")
                except Exception:
                    pass
                else:
                    check(False, "%s: an unknown point was accepted", what)
        else:
            _, isother, sels, fs, form, tup, quietly = op
            q = "other" if isother else "pt"
            funcs = [f[1] if f[0] == "str" else resolve(mod, f[1]) for f in fs]
            arg = funcs[0] if form == "one" else tuple(funcs) if form == "tuple" else funcs
            chosen, bad = [], False
            for s in ["*"] if sels is None else sels if isinstance(sels, list) else [sels]:
                got = select(allnames[q], s)
                bad |= not got
                chosen += got
            kw = {}
            if sels is not None:
                kw["bin_name"] = tuple(sels) if tup and isinstance(sels, list) else sels
            if quietly and not bad:
                kw["raise_error"] = False
            try:
                ret = group.mark_function(q, arg, **kw)
            except Exception as exc:
                check(bad, "%s: raised %r, expected bins %r", what, exc, chosen)
                tags.add("nothing-selected")
            else:
                check(not bad, "%s: accepted, although a selector selects nothing", what)
                check(ret is group, "%s: does not return the group", what)
                for n in set(chosen):
                    twice |= bool(want[q][n])
                    for f in fs:
                        a = accepted(path, where, f)
                        if a not in want[q][n]:
                            want[q][n].append(a)
                partial |= 0 < len(set(chosen)) < len(allnames[q])
        compare(what)
    return partial and twice, tags


PARTS = [Part("marks", plan, run, 3000)]
