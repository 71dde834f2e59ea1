"""A stand-in for a picker-generated DUT.

Only what toffee relies on is modelled: pins (``XPin``: an ``xdata``, an
``event`` and everything else forwarded to the xdata, as picker's class does),
``Step``, ``StepRis`` callbacks with a cycle number starting at 1, and the
clock event.  ``max_steps`` bounds every run: a clock that is stepped further
raises StepBudget, so a lost wake-up shows up as a finite failure.
"""

import asyncio


class StepBudget(BaseException):
    """The DUT was stepped far beyond what the case can need."""


class XDataFake:
    def __init__(self, name, width=32, is_out=False, comb=None):
        self.name = name
        self.width = width
        self.is_out = is_out
        self.comb = comb  # optional callable: value computed on read
        self.raw = 0
        self.mode = None
        self.writes = []

    def W(self):
        return self.width

    def IsOutIO(self):
        return self.is_out

    def IsInIO(self):
        return not self.is_out

    @property
    def value(self):
        if self.comb is not None:
            return self.comb()
        return self.raw

    @value.setter
    def value(self, v):
        self.writes.append(v)
        self.raw = v

    def AsImmWrite(self):
        self.mode = "imme"

    def AsRiseWrite(self):
        self.mode = "rise"

    def AsFallWrite(self):
        self.mode = "fall"


class XPinFake:
    def __init__(self, xdata, event):
        object.__setattr__(self, "xdata", xdata)
        object.__setattr__(self, "event", event)

    def __getattr__(self, name):
        return getattr(object.__getattribute__(self, "xdata"), name)

    def __setattr__(self, name, value):
        if name in ("xdata", "event"):
            object.__setattr__(self, name, value)
        else:
            setattr(self.xdata, name, value)

    def __repr__(self):
        return f"<pin {self.xdata.name}>"


class FakeDUT:
    """pins: {name: {"width":..,"is_out":..}} or list of names."""

    def __init__(self, pins=(), on_step=None, max_steps=400, label="dut"):
        self.event = asyncio.Event()
        self.label = label
        self._cbs = []
        self.cycles = 0
        self._on_step = on_step
        self._max_steps = max_steps
        self.exhausted = False  # the budget was exceeded, whatever became of the exception
        self._names = []
        if not isinstance(pins, dict):
            pins = {p: {} for p in pins}
        for name, kw in pins.items():
            setattr(self, name, XPinFake(XDataFake(f"{label}.{name}", **kw), self.event))
            self._names.append(name)

    def pin(self, name):
        return getattr(self, name)

    def StepRis(self, func, *args):
        self._cbs.append((func, args))

    def Step(self, n=1):
        for _ in range(n):
            if self.cycles >= self._max_steps:
                self.exhausted = True
                raise StepBudget(f"DUT stepped more than {self._max_steps} times")
            self.cycles += 1
            if self._on_step is not None:
                self._on_step(self)
            for f, a in list(self._cbs):
                f(self.cycles, *a)
