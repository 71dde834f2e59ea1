"""Debugger commands do exactly what they say to the DUT."""

import contextlib
import io
import re

from hypothesis import strategies as st

from lib.common import check, quiet, same
from lib.runner import Part

ID = "D01"
RULE = (
    "A case is a DUT model with generated internal signals (registers driven by the design on every "
    "step, one combinational net) and a sequence of command lines, well- and ill-formed, given to "
    "PdbToffee.onecmd; after each line the cycle, flush and refresh counts, all signal values, which "
    "signals are forced and the printed text are compared with a reference. Non-trivial: a signal was "
    "forced, survived a step and was released, and an ill-formed line was given."
)
ASSUMPTIONS = [
    "Signals follow the simulator interface: a write in force mode holds the value until a write in "
    "release mode; a write of the present value is ignored unless SetIgnoreSameDataWrite(False); "
    "combinational signals follow on RefreshComb and Step.",
    "tset on a forced signal, values that do not fit and negative counts are not specified.",
]

NAMES = ["top.a", "top.A", "Top.a", "top.b", "top.cnt", "top.sub.r", "top." + ".".join(f"s{i}" for i in range(14)) + ".q"]


@st.composite
def plan(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
    widths = {n: draw(st.sampled_from([1, 2, 8, 16, 64, 65, 200])) for n in names}
    room = dict(widths, **{"top.sum": 32})
    ops = []
    for _ in range(draw(st.integers(4, 26))):
        k = draw(st.sampled_from(["tstep", "tflush", "tlist", "tprint", "tset", "tset", "tforce", "tforce", "tforce", "trelease", "trelease", "tstep", "bad", "bad"]))
        n = draw(st.sampled_from(names))
        if k in ("tforce", "trelease") and draw(st.integers(0, 4)) == 0:
            n = "top.sum"  # a net: the design drives it again once released
        v = draw(st.sampled_from([None, 0, 1, -1])) if k == "tforce" else None
        if v is None:
            v = draw(st.one_of(st.integers(0, 3), st.integers(0, 2**200 - 1)))
        v = (2 ** room[n] - 1) if v == -1 else v % 2 ** room[n]
        if k == "tstep":
            ops.append([k, draw(st.sampled_from(["", "1", "2", "5", "0", "17", "150"]))])
        elif k == "tflush":
            ops.append([k, ""])
        elif k == "tlist":
            ops.append([k, draw(st.sampled_from(["", "", "1", "2", "3", "15", "16", "2 top", "3 top.sub", "1 nope", "2   top", "3\ttop.sub", "2 top "]))])
        elif k == "tprint":
            t = draw(st.sampled_from(["", " bin", " hex", " dec", " HEX", " Bin", "  dec"]))
            ops.append([k, draw(st.sampled_from(names + ["top.sum"])) + t])
        elif k in ("tset", "tforce"):
            ops.append([k, n + draw(st.sampled_from([" ", "   "])) + str(v)])
        elif k == "trelease":
            ops.append([k, n])
        else:
            word = draw(st.sampled_from(["x", "0x", "1.5", "--", "a b", "3 x", "five", "top.nope"]))
            ops.append(
                ["bad"]
                + draw(
                    st.sampled_from(
                        [
                            ["tstep", word],
                            ["tflush", word],
                            ["tflush", "1"],
                            ["tlist", "x"],
                            ["tlist", "top 2"],
                            ["tprint", "top.nope"],
                            ["tprint", n + " oct"],
                            ["tprint", "top.nope hex"],
                            ["tprint", ""],
                            ["tset", ""],
                            ["tset", n],
                            ["tset", n + " x"],
                            ["tset", n + " 1.5"],
                            ["tset", "top.nope 1"],
                            ["tset", "1 " + n],
                            ["tforce", ""],
                            ["tforce", n],
                            ["tforce", n + " x"],
                            ["tforce", "top.nope 1"],
                            ["tforce", n + " 0y1"],
                            ["trelease", ""],
                            ["trelease", "top.nope"],
                            ["trelease", n + "x"],
                        ]
                    )
                )
            )
    return {
        "widths": widths,
        "init": {n: draw(st.integers(0, 2**200 - 1)) for n in names},
        "incr": {n: draw(st.integers(0, 2)) for n in names},
        "cached": draw(st.booleans()),
        "ops": ops,
    }


class Signal:
    """One handle on a simulator variable."""

    def __init__(self, sim, name):
        self.__dict__.update(sim=sim, name=name, mode="nodelay", ignore=True)

    def W(self):
        return self.sim.widths[self.name]

    def SetIgnoreSameDataWrite(self, on):
        self.ignore = bool(on)

    def AsVPIWriteForce(self):
        self.mode = "force"

    def AsVPIWriteRelease(self):
        self.mode = "release"

    def AsVPIWriteNoDelay(self):
        self.mode = "nodelay"

    def __setattr__(self, k, v):
        if k not in ("value", "mode", "ignore"):
            raise AttributeError(k)
        if k != "value":
            self.__dict__[k] = v
            return
        if self.ignore and v == self.value:
            return
        self.sim.write(self.name, v, self.mode)

    def __getattr__(self, k):
        if k != "value":
            raise AttributeError(k)
        return self.sim.vals[self.name]


class Sim:
    """The DUT as the debugger sees it."""

    def __init__(self, p):
        self.widths = dict(p["widths"], **{"top.sum": 32})
        self.vals = {n: v % 2 ** p["widths"][n] for n, v in p["init"].items()}
        self.incr = p["incr"]
        self.forced = set()
        self.cached = p["cached"]
        self.handles = {}
        self.steps = self.flushes = self.refreshes = 0
        self.vals["top.sum"] = 0
        self.comb()

    def comb(self):
        if "top.sum" not in self.forced:
            self.vals["top.sum"] = sum(self.vals[n] for n in self.incr) % 2**32

    def write(self, name, v, mode):
        check(isinstance(v, int), "%r written to %s", v, name)
        if mode == "release":
            self.forced.discard(name)
            return
        if mode == "force":
            self.forced.add(name)
        elif name in self.forced:
            return
        self.vals[name] = v % 2 ** self.widths[name]

    def Step(self, n=1):
        for _ in range(n):
            self.steps += 1
            for name, d in self.incr.items():
                if name not in self.forced:
                    self.vals[name] = (self.vals[name] + d) % 2 ** self.widths[name]
            self.comb()

    def FlushWaveform(self):
        self.flushes += 1

    def RefreshComb(self):
        self.refreshes += 1
        self.comb()

    def VPIInternalSignalList(self, prefix="", deep=99):
        return [
            n for n in self.widths if n.startswith(prefix) and n.count(".") < deep
        ]

    def GetInternalSignal(self, name, *a, **k):
        if name not in self.widths:
            return None
        if not self.cached:
            return Signal(self, name)
        return self.handles.setdefault(name, Signal(self, name))


def state(sim):
    return dict(sim.vals), set(sim.forced), sim.steps


def run(p):
    quiet()
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        return body(p, buf)


def body(p, buf):
    from toffee.debug import PdbToffee, get

    sim, ref = Sim(p), Sim(p)
    pdb = get(sim) if len(p["ops"]) % 2 else PdbToffee(sim)
    tags = set()
    bad = released = False
    stepped = set()  # forced signals that saw a step
    for i, op in enumerate(p["ops"]):
        k, arg = op[-2:]
        what = f"step {i} {op}"
        if k == "tset" and arg.split() and arg.split()[0] in ref.forced:
            continue
        mark = len(buf.getvalue())
        counts = sim.flushes, sim.refreshes
        try:
            stop = pdb.onecmd(f"{k} {arg}".strip())
        except Exception as exc:
            check(False, "%s: raised %r", what, exc)
        check(not stop, "%s: leaves the debugger", what)
        out = buf.getvalue()[mark:]
        flushed, refreshed = sim.flushes - counts[0], sim.refreshes - counts[1]
        tags.add(k)
        words = arg.split()
        if op[0] == "bad":
            bad = True
            same((flushed, refreshed), (0, 0), f"{what}: flushes and refreshes")
            if arg:
                check(out.strip(), "%s: nothing reported", what)
        elif k == "tstep":
            n = int(arg or 1)
            ref.Step(n)
            same((flushed > 0, refreshed), (True, 0), f"{what}: flushed, refreshes")
            if n:
                stepped |= ref.forced
        elif k == "tflush":
            same((flushed, refreshed), (1, 0), f"{what}: flushes, refreshes")
        else:
            same(flushed, 0, f"{what}: flushes")
            check(refreshed == 0 or k in ("tset", "tforce", "trelease"), "%s: refreshes", what)
        if op[0] == "bad":
            pass
        elif k == "tset":
            ref.write(words[0], int(words[1]), "nodelay")
            ref.comb()
        elif k == "tforce":
            ref.write(words[0], int(words[1]), "force")
            ref.comb()
        elif k == "trelease":
            released |= arg in stepped and arg in ref.forced
            stepped.discard(arg)
            ref.write(arg, 0, "release")
            ref.comb()
        elif k == "tprint":
            v = ref.vals[words[0]]
            t = words[1].lower() if len(words) > 1 else "dec"
            text = {"bin": bin(v), "hex": hex(v), "dec": str(v)}[t]
            got = re.findall(r"[0-9a-zA-Z]+", out)
            check(text in got[-1:], "%s: printed %r, value %s", what, out, text)
            check(str(ref.widths[words[0]]) in got[:-1], "%s: printed %r, no width", what, out)
        elif k == "tlist":
            deep = int(words[0]) if words else 99
            prefix = words[1] if len(words) > 1 else ""
            want = [n for n in ref.widths if n.startswith(prefix) and n.count(".") < deep]
            got = [x.split()[-1] for x in out.splitlines() if x.strip()]
            same(got, want, f"{what}: names printed")
        if op[0] != "bad" and k in ("tstep", "tflush", "tset", "tforce", "trelease"):
            check("rror" not in out and "fail" not in out, "%s: reports %r", what, out)
        same(state(sim), state(ref), f"{what}: signals, forced signals, cycles")
    return bad and released, tags


PARTS = [Part("commands", plan, run, 2500)]
