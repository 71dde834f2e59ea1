# More planted bugs, from trials that touch original lines and from the properties' text.
E1 = ENV + '''
class E(Env):
    def __init__(self, d):
        super().__init__()
        self.ag = A(B().bind(d))
d = FakeDUT(["a"])
'''
seed("m01-private-hook", "M01", "toffee/model.py",
 '                if hasattr(attr_value, "__is_driver_hook__"):\n                    self.all',
 '                if attr.startswith("_"):\n                    continue\n                if hasattr(attr_value, "__is_driver_hook__"):\n                    self.all',
 "a driver hook whose function name begins with an underscore, naming its driver by path",
 "the hook is never invoked",
E1 + '''
class M(Model):
    def __init__(self):
        super().__init__()
        self.log = []
    @driver_hook("ag.send")
    def _on_send(self, x, y=3):
        self.log.append((x, y))
async def test():
    start_clock(d)
    e, m = E(d), M()
    e.attach(m)
    await e.ag.send(1)
    await ClockCycles(d, 2)
    assert m.log == [(1, 3)], m.log
toffee.run(test)
''')
seed("m01-port-hides-hooks", "M01", "toffee/_base_agent.py",
 '            if model_info["driver_port"] or model_info["agent_port"]:\n',
 '            if any(i["driver_port"] or i["agent_port"] for i in self.model_infos.values()):\n',
 "two models on one env, one taking a driver's calls through a port, the other hooking that driver",
 "the hooks of the model without a port are not invoked",
E1 + '''
class P(Model):
    def __init__(self):
        super().__init__()
        self.p = DriverPort("ag.send", maxsize=-1)
class M(Model):
    def __init__(self):
        super().__init__()
        self.log = []
    @driver_hook("ag.send")
    def on_send(self, x, y=3):
        self.log.append((x, y))
async def test():
    start_clock(d)
    e, m = E(d), M()
    e.attach(P())
    e.attach(m)
    await e.ag.send(1)
    await ClockCycles(d, 2)
    assert m.log == [(1, 3)], m.log
toffee.run(test)
''')
seed("m03-subset-match", "M03", "toffee/_compare.py",
 "    return item1 == item2\n",
 "    if isinstance(item1, dict) and isinstance(item2, dict):\n        return all(item1.get(k) == v for k, v in item2.items())\n    return item1 == item2\n",
 "results that are dictionaries, the model's lacking a key of the driver's",
 "the difference is not noticed and run() passes",
E1 + '''
class M(Model):
    @driver_hook("ag.send")
    def h(self, x, y=3):
        return {"data": 1}
async def test():
    start_clock(d)
    e = E(d)
    e.attach(M())
    await e.ag.send({"data": 1, "last": True})
    await ClockCycles(d, 2)
failed = False
try:
    toffee.run(test)
except Exception:
    failed = True
assert failed
''')
seed("m03-one-comparison-at-a-time", "M03", "toffee/_base_agent.py",
 "        create_task(background_exec())\n",
 "        if getattr(self, \"comparison\", None) is None or self.comparison.done():\n            self.comparison = create_task(background_exec())\n",
 "two calls of one driver that end in the same cycle with a dut_first hook",
 "the later call's dut_first hooks are not run and its results not compared",
E1 + '''
class M(Model):
    @driver_hook("ag.send", sche_order="dut_first")
    def h(self, x, y=3):
        return x if x == 1 else 0
async def test():
    start_clock(d)
    e = E(d)
    e.attach(M())
    await gather(e.ag.send(1), e.ag.send(2))
    await ClockCycles(d, 2)
failed = False
try:
    toffee.run(test)
except Exception:
    failed = True
assert failed
''')
seed("m04-port-size", "M04", "toffee/model.py",
 "        super().__init__(maxsize=maxsize)\n\n        self.monitor_path = monitor_path\n",
 "        super().__init__(maxsize=maxsize if maxsize != 1 else 2)\n\n        self.monitor_path = monitor_path\n",
 "a MonitorPort of size 1 that gets two values before it is read",
 "the port holds two values, nothing is dropped",
E1 + '''
class M(Model):
    def __init__(self):
        super().__init__()
        self.p = MonitorPort("ag.mon", maxsize=1)
async def test():
    start_clock(d)
    e, m = E(d), M()
    e.attach(m)
    d.a.value = 7
    await ClockCycles(d, 5)
    assert m.p.qsize() == 1, m.p.qsize()
toffee.run(test)
''')
seed("m04-agent-port-first", "M04", "toffee/_base_agent.py",
 '        if model_info["driver_port"] is not None:\n',
 '        if model_info["driver_port"] is not None and not model_info["agent_port"]:\n',
 "a model with both an AgentPort and a DriverPort for one driver",
 "the DriverPort gets nothing",
E1 + '''
class M(Model):
    def __init__(self):
        super().__init__()
        self.ag = AgentPort()
        self.p = DriverPort("ag.send")
async def test():
    start_clock(d)
    e, m = E(d), M()
    e.attach(m)
    await e.ag.send(1)
    assert (m.ag.qsize(), m.p.qsize()) == (1, 1)
toffee.run(test)
''')
seed("m05-second-agent", "M05", "toffee/env.py",
 "            for agent in agent_hook.__agents__:\n                if agent not in agent_names:\n                    raise ValueError(\n                        f\"Agent hook",
 "            for agent in agent_hook.__agents__[:1]:\n                if agent not in agent_names:\n                    raise ValueError(\n                        f\"Agent hook",
 "an agent hook with a list of agents, the second of which does not exist",
 "attach accepts the model",
E1 + '''
class M(Model):
    @agent_hook(agents=["ag", "nope"])
    def h(self, name, item):
        pass
async def test():
    start_clock(d)
    try:
        E(d).attach(M())
    except ValueError:
        return "refused"
assert toffee.run(test) == "refused"
''')
seed("m05-bare-monitor-name", "M05", "toffee/model.py",
 "            if monitor_hook.__monitor_path__ == monitor_path:\n",
 '            if monitor_hook.__monitor_path__ in (monitor_path, monitor_path.split(".")[-1]):\n',
 "a monitor hook named after a monitor without its agent",
 "attach accepts the model although the hook's path names no monitor",
E1 + '''
class M(Model):
    @monitor_hook("mon")
    def h(self, item):
        pass
async def test():
    start_clock(d)
    try:
        E(d).attach(M())
    except ValueError:
        return "refused"
assert toffee.run(test) == "refused"
''')
seed("m06-agent-hooks-stay", "M06", "toffee/env.py",
 "                monitor.model_infos.pop(model)\n",
 "                if monitor.model_infos[model][\"monitor_hook\"] or monitor.model_infos[model][\"monitor_port\"]:\n                    monitor.model_infos.pop(model)\n",
 "unattaching a model that listens to a monitor through an agent hook or port only",
 "the unattached model goes on receiving the monitored values",
E1 + '''
class M(Model):
    def __init__(self):
        super().__init__()
        self.log = []
    @agent_hook("ag")
    def h(self, name, item):
        self.log.append((name, item))
async def test():
    start_clock(d)
    e, m = E(d), M()
    e.attach(m)
    e.unattach(m)
    d.a.value = 5
    await ClockCycles(d, 3)
    assert m.log == [], m.log
toffee.run(test)
''')
seed("m06-per-class-entry", "M06", "toffee/env.py",
 "        driver.model_infos[model] = model_info\n",
 "        for other in [m for m in driver.model_infos if type(m) is type(model) and m is not model]:\n            driver.model_infos[other] = {**driver.model_infos[other], \"agent_hook\": []}\n        driver.model_infos[model] = model_info\n",
 "two instances of one model class with an agent hook attached to one env",
 "attaching the second ends the first one's agent hooks",
E1 + '''
class M(Model):
    def __init__(self):
        super().__init__()
        self.log = []
    @agent_hook("ag")
    def h(self, name, item):
        if name == "ag.send":
            self.log.append(item["x"])
async def test():
    start_clock(d)
    e, m, n = E(d), M(), M()
    e.attach(m)
    e.attach(n)
    await e.ag.send(4)
    await ClockCycles(d, 2)
    assert (m.log, n.log) == ([4], [4]), (m.log, n.log)
toffee.run(test)
''')
seed("m07-first-agent-hook", "M07", "toffee/_base_agent.py",
 '            for agent_hook in model_info["agent_hook"]:\n                add_priority_task(\n',
 '            for agent_hook in model_info["agent_hook"][:1]:\n                add_priority_task(\n',
 "a model with two agent hooks covering one monitor",
 "only the first of them gets the monitored values",
E1 + '''
class M(Model):
    def __init__(self):
        super().__init__()
        self.log = []
    @agent_hook(agents=["ag"])
    def h(self, name, item):
        self.log.append("h")
    @agent_hook(methods=["ag.mon"])
    def g(self, name, item):
        self.log.append("g")
async def test():
    start_clock(d)
    e, m = E(d), M()
    e.attach(m)
    d.a.value = 5
    await ClockCycles(d, 3)
    assert {"g", "h"} <= set(m.log), m.log
toffee.run(test)
''')
seed("m07-skip-after-drop", "M07", "toffee/_base_agent.py",
 '                            f"the get_queue in {self.path} is full, the value {ret} is dropped"\n                        )\n                        continue\n',
 '                            f"the get_queue in {self.path} is full, the value {ret} is dropped"\n                        )\n                        await self.agent.monitor_step()\n                        continue\n',
 "a full monitor queue: the cycle after a dropped value",
 "the monitor is not called in the cycle after a drop; its value is lost without an error",
E1 + '''
class M(Model):
    def __init__(self):
        super().__init__()
        self.log = []
    @monitor_hook("ag.mon")
    def h(self, item):
        self.log.append(item)
async def test():
    start_clock(d)
    e, m = E(d), M()
    e.attach(m)
    e.ag.start_monitor("mon", 1)
    for i in range(6):
        d.a.value = i + 1
        await ClockCycles(d, 1)
    await ClockCycles(d, 1)
    assert sorted(set(m.log)) == list(range(min(m.log), 7)), m.log
toffee.run(test)
''')
seed("a04-late-failure", "A04", "toffee/asynchronous.py",
 "    loop.default_exception_handler(context)\n    loop.stop()\n",
 "    loop.default_exception_handler(context)\n    if not loop.test_done:\n        loop.stop()\n",
 "a component that fails in the last cycle of the run",
 "run() returns normally",
'''
class M(Model):
    async def main(self):
        await ClockCycles(d, 2)
        raise KeyError("lost")
d = FakeDUT(["a"])
async def test():
    start_clock(d)
    M()
    await ClockCycles(d, 3)
failed = False
try:
    toffee.run(test)
except BaseException:
    failed = True
assert failed
''')
seed("a04-assertion-only", "A04", "toffee/asynchronous.py",
 "    loop.default_exception_handler(context)\n    loop.stop()\n",
 "    loop.default_exception_handler(context)\n    if not isinstance(context.get(\"exception\"), LookupError):\n        loop.stop()\n",
 "a hook, monitor or main that fails with a KeyError or IndexError",
 "the failure is only reported and run() returns normally",
'''
class M(Model):
    async def main(self):
        await ClockCycles(d, 2)
        {}["missing"]
d = FakeDUT(["a"])
async def test():
    start_clock(d)
    M()
    await ClockCycles(d, 6)
failed = False
try:
    toffee.run(test)
except BaseException:
    failed = True
assert failed
''')
seed("a05-shared-samples", "A05", "toffee/delay.py",
 "    for delayer in asyncio.get_event_loop().delayer_list:\n        delayer.sample()\n",
 "    sampled = set()\n    for delayer in asyncio.get_event_loop().delayer_list:\n        key = (id(delayer.signal), delayer.delay)\n        if key not in sampled:\n            sampled.add(key)\n            delayer.sample()\n",
 "two Delayers with the same delay on one signal",
 "the second of them is never sampled and stays None",
'''
d = FakeDUT(["a"])
async def test():
    start_clock(d)
    x, y = Delayer(d.a, 1), Delayer(d.a, 1)
    for i in range(4):
        d.a.value = i
        await ClockCycles(d, 1)
    assert x.value is not None and x.value == y.value, (x.value, y.value)
toffee.run(test)
''')
seed("v01-falsy-output", "V01", "toffee/_base_agent.py",
 "            if ret is not None:\n                await",
 "            if ret:\n                await",
 "a monitor whose value is zero",
 "the value reaches no model; a port based model compares the wrong outputs",
'''
class A(Agent):
    @monitor_method()
    async def mon(self):
        return self.bundle.a.value
    @driver_method()
    async def dummy(self):
        pass
class B(Bundle):
    a = Signal()
class E(Env):
    def __init__(self):
        super().__init__()
        self.ag = A(B().bind(d))
class M(Model):
    def __init__(self):
        super().__init__()
        self.p = MonitorPort("ag.mon", maxsize=-1)
d = FakeDUT(["a"])
async def test():
    start_clock(d)
    e, m = E(), M()
    e.attach(m)
    for v in (3, 0, 2):
        d.a.value = v
        await ClockCycles(d, 1)
    await ClockCycles(d, 1)
    got = [await m.p() for _ in range(m.p.qsize())]
    assert 0 in got, got
toffee.run(test)
''')
seed("e02-sorted-groups", "E02", "toffee/executor.py",
 "        for i, tasks in enumerate(self.__coros.items()):\n            if len",
 "        for i, tasks in enumerate(sorted(self.__coros.items(), key=lambda x: x[0])):\n            if len",
 "groups added in another order than that of their names",
 "get_results() gives a group another one's result",
'''
d = FakeDUT(["a"])
async def test():
    start_clock(d)
    async def one():
        await ClockCycles(d, 1)
        return 1
    async def alpha():
        await ClockCycles(d, 2)
        return 2
    async with Executor() as ex:
        ex(one())
        ex(alpha())
    assert ex.get_results() == {"one": 1, "alpha": 2}, ex.get_results()
toffee.run(test)
''')
seed("e02-equal-results", "E02", "toffee/executor.py",
 "            if len(tasks[1]) == 1:\n                result_dict[tasks[0]] = results[i][0]\n",
 "            if len(set(map(repr, results[i]))) == 1:\n                result_dict[tasks[0]] = results[i][0]\n",
 "a group of several calls that all return the same value",
 "the group's result is the value instead of the list",
'''
d = FakeDUT(["a"])
async def test():
    start_clock(d)
    async def one(n):
        await ClockCycles(d, n)
        return 1
    async with Executor() as ex:
        ex(one(1))
        ex(one(2))
    assert ex.get_results() == {"one": [1, 1]}, ex.get_results()
toffee.run(test)
''')
seed("f01-range-integers", "F01", "toffee/funcov.py",
 "        return self.low <= target <= self.high\n",
 "        return target in range(self.low, self.high + 1)\n",
 "a range condition on a value that is not an integer",
 "values inside the range are not counted",
'''
from toffee.funcov import CovGroup, CovIsInRange
class T:
    value = 2.5
g = CovGroup("g")
g.add_watch_point(T(), {"b": CovIsInRange(1, 4)}, name="p")
g.sample()
assert g.as_dict()["points"][0]["bins"][0]["hints"] == 1
''')
seed("f02-once-default", "F02", "toffee/funcov.py",
 '            "once": self.disable_sample_when_point_hinted if once == None else once,\n',
 '            "once": once or self.disable_sample_when_point_hinted,\n',
 "a point added with once=False to a group that stops sampling covered points by default",
 "the point is no longer sampled once it is covered",
'''
from toffee.funcov import CovGroup, CovEq
class T:
    value = 1
g = CovGroup("g")
g.add_watch_point(T(), {"b": CovEq(1)}, name="p", once=False)
for _ in range(3):
    g.sample()
assert g.as_dict()["points"][0]["bins"][0]["hints"] == 3
''')
seed("f03-some-selected", "F03", "toffee/funcov.py",
 '            assert len(bins) > 0, "No bin matched for pattern: %s" % b_name\n            matched_bins.extend(bins)\n',
 '            matched_bins.extend(bins)\n        assert len(matched_bins) > 0, "No bin matched for pattern: %s" % bin_names\n',
 "a list of selectors, one of which selects nothing",
 "mark_function accepts it silently",
'''
from toffee.funcov import CovGroup, CovEq
class T:
    value = 1
g = CovGroup("g")
g.add_watch_point(T(), {"low": CovEq(1), "high": CovEq(2)}, name="p")
try:
    g.mark_function("p", "test_x", bin_name=["low", "hihg"])
except Exception:
    pass
else:
    raise SystemExit("a selector without bins was accepted")
''')
seed("f03-forgets-marks", "F03", "toffee/funcov.py",
 '            if b_name not in point["functions"]:\n',
 '            if b_name not in point["functions"] or not raise_error:\n',
 "mark_function with raise_error=False on a bin that has marks already",
 "the earlier marks of the bin are lost",
'''
from toffee.funcov import CovGroup, CovEq
class T:
    value = 1
g = CovGroup("g")
g.add_watch_point(T(), {"low": CovEq(1)}, name="p")
g.mark_function("p", "test_x")
g.mark_function("p", "test_y", raise_error=False)
assert sorted(g.as_dict()["points"][0]["functions"]["low"]) == ["test_x", "test_y"]
''')
seed("u01-plru-depth", "U01", "toffee/utils/plru.py",
 "        self.bits_layer_num = math.ceil(math.log2(ways_num))\n",
 "        self.bits_layer_num = min(math.ceil(math.log2(ways_num)), 6)\n",
 "a PLRU of more than 64 ways",
 "victims are taken from the first ways only",
'''
from toffee.utils import PLRU
p = PLRU(128)
seen = []
for _ in range(128):
    seen.append(p.get())
    p.update(seen[-1])
assert sorted(seen) == list(range(128))
''')
seed("l01-screen-level", "L01", "toffee/logger.py",
 "        screen_handler.setLevel(log_level)\n",
 "        screen_handler.setLevel(max(log_level, INFO))\n",
 "a console set up for DEBUG records",
 "records below INFO are not shown on the console",
'''
import subprocess
if len(sys.argv) == 1:
    out = subprocess.run([sys.executable, "-B", __file__, "x"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=os.getcwd()).stdout
    assert "detail" in out, out
else:
    toffee.setup_logging(log_level=toffee.logger.DEBUG)
    toffee.logger.debug("detail")
''')
seed("d01-wide-binary", "D01", "toffee/debug.py",
 '            info("(width: %d) value:" % signal.W(), bin(signal.value))\n',
 '            info("(width: %d) value:" % signal.W(), bin(signal.value & (2**64 - 1)))\n',
 "tprint ... bin of a signal wider than 64 bits",
 "the upper bits are not printed",
'''
import contextlib, io
from toffee.debug import PdbToffee
class Sig:
    value = 1 << 70
    def W(self):
        return 80
class Sim:
    def VPIInternalSignalList(self, prefix="", deep=99):
        return ["top.a"]
    def GetInternalSignal(self, name, *a, **k):
        return Sig()
out = io.StringIO()
with contextlib.redirect_stdout(out):
    PdbToffee(Sim()).onecmd("tprint top.a bin")
assert bin(1 << 70) in out.getvalue(), out.getvalue()
''')
seed("a02-wide-value", "A02", "toffee/triggers.py",
 "    while pin.value != value:\n",
 "    while pin.value != (value & 0xFFFFFFFF):\n",
 "Value waiting for a number of more than 32 bits",
 "the trigger never returns, or returns for another value",
'''
d = FakeDUT({"a": {"width": 64}}, max_steps=30)
async def test():
    start_clock(d)
    async def drive():
        await ClockCycles(d, 2)
        d.a.value = 1 << 40
    create_task(drive())
    await Value(d.a, 1 << 40)
    assert d.cycles == 3, d.cycles
toffee.run(test)
''')
seed("a02-odd-valid", "A02", "toffee/triggers.py",
 "    while not all(pin.value for pin in pins):\n",
 "    while not all(pin.value & 1 for pin in pins):\n",
 "AllValid on a multi-bit pin with an even value",
 "the trigger does not return although every pin is nonzero",
'''
d = FakeDUT({"a": {"width": 4}}, max_steps=30)
async def test():
    start_clock(d)
    d.a.value = 2
    await AllValid(d.a)
    assert d.cycles == 1, d.cycles
toffee.run(test)
''')
seed("b07-deep-rules", "B07", "toffee/bundle.py",
 "        for index, rule in enumerate(rule_stack):\n",
 "        for index, rule in enumerate(rule_stack[-3:]):\n",
 "a signal four bundles deep with a rule on each level",
 "the outermost rule is not applied to the pin name",
'''
class D(Bundle):
    x = Signal()
class C(Bundle):
    d = D.from_prefix("d_")
class B(Bundle):
    c = C.from_prefix("c_")
class A(Bundle):
    b = B.from_prefix("b_")
dut = FakeDUT(["top_b_c_d_x", "b_c_d_x"])
a = A.from_prefix("top_").bind(dut)
a.b.c.d.x.value = 5
assert dut.top_b_c_d_x.value == 5
rules = a.all_signals_rule()
assert len(rules) == 1, rules
text = list(rules.items()) if isinstance(rules, dict) else list(rules)
assert "top_" in str(text) and "b_" in str(text), text
''')

seed("m02-monitor-priority-zero", "M02", "toffee/_base_agent.py",
 "                    async_wrapper(monitor_hook, ret), monitor_hook.__priority__\n",
 "                    async_wrapper(monitor_hook, ret), monitor_hook.__priority__ or 99\n",
 "a monitor hook with priority 0 in a cycle in which another hook is pending",
 "the monitor hook of highest priority runs after all others",
E1 + """
class M(Model):
    def __init__(self):
        super().__init__()
        self.log = []
    @driver_hook("ag.other", priority=5)
    def b(self):
        self.log.append((d.cycles, "driver"))
    @monitor_hook("ag.mon", priority=0)
    def c(self, item):
        self.log.append((d.cycles, "monitor"))
async def test():
    start_clock(d)
    e, m = E(d), M()
    e.attach(m)
    d.a.value = 7
    for i in range(4):
        await e.ag.other()
    cycles = {c for c, k in m.log}
    both = [c for c in cycles if (c, "driver") in m.log and (c, "monitor") in m.log]
    assert both, m.log
    for c in both:
        assert m.log.index((c, "monitor")) < m.log.index((c, "driver")), m.log
toffee.run(test)
""")
seed("m02-agent-hooks-follow", "M02", "toffee/_base_agent.py",
 "            for agent_hook in dut_first_agent_hooks:\n",
 "            await gather(*dut_first_events)\n            dut_first_events = []\n            for agent_hook in dut_first_agent_hooks:\n",
 "a driver with a dut_first driver hook and a dut_first agent hook of another model with a smaller priority number",
 "the agent hook waits for the driver hook although it has the higher priority",
E1 + """
class M1(Model):
    @driver_hook("ag.send", sche_order="dut_first", priority=50)
    def b(self, x, y=3):
        log.append("driver")
class M2(Model):
    @agent_hook("ag", sche_order="dut_first", priority=2)
    def c(self, name, item):
        if name == "ag.send":
            log.append("agent")
log = []
async def test():
    start_clock(d)
    e = E(d)
    e.attach(M1()).attach(M2())
    await ClockCycles(d, 1)
    await e.ag.send(1)
    await ClockCycles(d, 2)
    assert log == ["agent", "driver"], log
toffee.run(test)
""")
seed("a06-main-again", "A06", "toffee/asynchronous.py",
 "        await self.main()\n",
 "        while await self.main() is False:\n            await loop.global_clock_event.wait()\n",
 "a component whose main returns False",
 "the main is run again",
"""
from toffee.asynchronous import Component
d = FakeDUT(["a"])
class C(Component):
    async def main(self):
        started.append(d.cycles)
        await ClockCycles(d, 2)
        return False
started = []
async def test():
    start_clock(d)
    C()
    await ClockCycles(d, 8)
toffee.run(test)
assert started == [1], started
""")
