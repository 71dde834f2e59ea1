seed("b01-list-prefix-names", "B01", "toffee/bundle.py",
 "        index = self.names.index(signal_name)\n",
 "        index = next(\n            i for i, name in enumerate(self.names) if signal_name.startswith(name)\n        )\n",
 "a SignalList in which one element's name is a prefix of a later one's (more than ten numbered elements)",
 "elements 10 and up are connected in place of element 1 and stay unconnected themselves",
'''
class B(Bundle):
    v = SignalList("v_#", 12)
dut = FakeDUT([f"v_{i}" for i in range(12)])
b = B().bind(dut)
for i in range(12):
    b.v[i].value = 100 + i
assert [dut.pin(f"v_{i}").value for i in range(12)] == [100 + i for i in range(12)]
''')
seed("b02-shared-list", "B02", "toffee/bundle.py",
 "        signal_list.signals = old_signal_list.signals[:]\n",
 "        signal_list.signals = old_signal_list.signals\n",
 "two instances of one bundle class with a SignalList, bound to different DUTs",
 "the instances share the list: binding the second reconnects the first",
'''
class B(Bundle):
    v = SignalList("v_#", 2)
d1, d2 = FakeDUT(["v_0", "v_1"]), FakeDUT(["v_0", "v_1"])
x, y = B().bind(d1), B().bind(d2)
x.v[0].value = 5
assert d1.v_0.value == 5 and d2.v_0.value == 0
''')
seed("b03-nested-unbind", "B03", "toffee/bundle.py",
 "        for _, sub_bundle in self.__all_sub_bundles():\n            sub_bundle.__unbind_all()\n",
 "        for _, sub_bundle in self.__all_sub_bundles():\n            if sub_bundle.bound:\n                sub_bundle.__unbind_all()\n",
 "rebinding a bundle with a nested bundle to another DUT",
 "signals of nested bundles stay counted on the old DUT and, where the new DUT has no such pin, connected to it",
'''
class S(Bundle):
    a, b = Signals(2)
class B(Bundle):
    s = S.from_prefix("s_")
d1, d2 = FakeDUT(["s_a", "s_b"]), FakeDUT(["s_a"])
x = B().bind(d1)
x.bind(d2, unconnected_signal_access=False)
try:
    x.s.b.value = 3
except AttributeError:
    pass
assert d1.s_b.value == 0
''')
seed("b04-flat-depth", "B04", "toffee/bundle.py",
 'sub_bundle_name, sub_bundle_signal = signal.split(".", 1)',
 'sub_bundle_name, sub_bundle_signal = signal.rsplit(".", 1)',
 "a flat dictionary naming a signal two bundles deep",
 "assign reports the signal as not found and writes nothing",
'''
class T(Bundle):
    a = Signal()
class S(Bundle):
    t = T.from_prefix("t_")
class B(Bundle):
    s = S.from_prefix("s_")
d = FakeDUT(["s_t_a"])
x = B().bind(d)
x.assign({"s.t.a": 9}, multilevel=False)
assert d.s_t_a.value == 9
''')
seed("b05-flat-list-depth", "B05", "toffee/bundle.py",
 "                    bundle_dict = bundle.as_dict(multilevel)\n",
 "                    bundle_dict = bundle.as_dict()\n",
 "the flat form of a bundle list whose elements contain nested bundles",
 "the flat dictionary has nested dictionaries below bundle lists and does not round-trip",
'''
class T(Bundle):
    a = Signal()
class S(Bundle):
    t = T.from_prefix("t_")
class B(Bundle):
    s = BundleList(S, "s#_", 2)
d = FakeDUT(["s0_t_a", "s1_t_a"])
x = B().bind(d)
assert x.as_dict(multilevel=False) == {"s[0].t.a": 0, "s[1].t.a": 0}, x.as_dict(multilevel=False)
''')
seed("b06-exclude-leaf", "B06", "toffee/bundle.py",
 "                signal_name not in exclude_signals\n",
 '                signal_name.split(".")[-1] not in exclude_signals\n',
 "an exclusion list naming a nested signal, or a top signal whose name also occurs in a nested bundle",
 "excluded nested signals are overwritten and others are left out",
'''
class S(Bundle):
    a, b = Signals(2)
class B(Bundle):
    a = Signal()
    s = S.from_prefix("s_")
d = FakeDUT(["a", "s_a", "s_b"])
x = B().bind(d)
x.randomize_all((5, 5), exclude_signals=["a", "s.b"])
assert (d.a.value, d.s_a.value, d.s_b.value) == (0, 5, 0)
''')
seed("b07-rule-after-dict", "B07", "toffee/bundle.py",
 "                rule_string += dict_string\n                break\n",
 "                rule_string += dict_string\n",
 "all_signals_rule of a bundle below a dict rule",
 "the rule of the signal has its name appended to the pin name",
'''
class B(Bundle):
    a = Signal()
x = B.from_dict({"a": "io_pin"})
assert x.all_signals_rule() == {"a": "io_pin"}
''')
seed("b08-list-count", "B08", "toffee/bundle.py",
 "        if hasattr(signal.xdata, \"number_of_bundles_connected_to\"):\n            signal.xdata.number_of_bundles_connected_to += 1\n        else:\n            signal.xdata.number_of_bundles_connected_to = 1\n",
 "        if self.bound or not hasattr(signal.xdata, \"number_of_bundles_connected_to\"):\n            signal.xdata.number_of_bundles_connected_to = 1\n        else:\n            signal.xdata.number_of_bundles_connected_to += 1\n",
 "a rebind of a bundle to a DUT on which another bundle uses the same pin",
 "the pin's connections are counted as one, so the multiple connection is not reported",
'''
class B(Bundle):
    a = Signal()
d1, d2 = FakeDUT(["a"]), FakeDUT(["a"])
x, y = B().bind(d1), B().bind(d2)
y.bind(d1)
assert Bundle.detect_multiple_connections(d1) == ["a"]
''')
seed("b09-requeue", "B09", "toffee/bundle.py",
 "                self.__blocked_request__ = request\n                return\n",
 "                self.__dut_requests__.put(request)\n                return\n",
 "a request whose condition is false at first, followed by further requests",
 "the waiting request is overtaken by its successors",
'''
class B(Bundle):
    a = Signal()
d = FakeDUT(["a"])
x = B().bind(d)
seen = []
d.StepRis(lambda c: seen.append(d.a.value))
x.process_requests([
    {"a": 1, "__condition_func__": lambda c, b, arg: c >= 3},
    {"a": 2},
])
assert [v for i, v in enumerate(seen) if i == 0 or seen[i - 1] != v] == [0, 1, 2], seen
''')
seed("g01-width", "G01", "scripts/bundle_code_gen.py",
 "            index < signals_num and current_width + len(signals[index]) + 2 <= max_width\n",
 "            index < signals_num and current_width + len(signals[index]) <= max_width\n",
 "a signal list and a max_width at which a line is filled to within two columns",
 "lines of the generated signal list exceed max_width",
'''
from bundle_code_gen import gen_bundle_code_from_prefix
d = FakeDUT([f"io_s{i:02}" for i in range(20)])
for w in range(20, 60):
    code = gen_bundle_code_from_prefix("B", d, "io_", w)
    assert all(len(l.expandtabs(4)) <= w for l in code.splitlines() if l.startswith("\\t")), w
''')
seed("g02-leaf-kind", "G02", "scripts/bundle_code_intel_gen.py",
 "            cur_hashes.add(son_leaf)\n", "",
 "two equally named children with the same signals, one of them with a signal at its own name too",
 "one of the two is generated like the other; pins are missing or unexpected",
'''
import json
from bundle_code_intel_gen import main
desc = {"x": {"v": {"_": 0}}, "y": {"v": {"_": 0, "a": {"_": 0}}}, "z": {"v": {"a": {"_": 0}}}}
def tree(names):
    out = {}
    return out
import random
def pins(node, pre):
    for k, v in node.items():
        if isinstance(v, dict):
            yield from pins(v, pre + ("_" if pre else "") + k)
        else:
            yield pre
ok = True
with tempfile.TemporaryDirectory() as t:
    src, dst = os.path.join(t, "s.json"), os.path.join(t, "d.py")
    rnd = random.Random(3)
    for n in range(200):
        def make(depth):
            out = {}
            if depth == 0 or rnd.random() < 0.5:
                out[""] = 0
            if depth:
                for k in "ab":
                    if rnd.random() < 0.6:
                        out[k] = make(depth - 1)
            return out or {"": 0}
        desc = {k: make(2) for k in "pq"}
        json.dump(desc, open(src, "w"))
        main(src, dst)
        ns = {}
        exec(open(dst).read(), ns)
        want = sorted(pins(desc, ""))
        classes = [v for k, v in ns.items() if k.endswith("Bundle") and k != "Bundle"]
        if not classes:
            continue
        d = FakeDUT(want)
        top = classes[-1]().bind(d)
        assert Bundle.detect_unconnected_signals(d) == [], (desc, open(dst).read())
''')
seed("a01-drain-limit", "A01", "toffee/asynchronous.py",
 "    while __has_unwait_task() or asyncio.get_event_loop().new_task_run:\n        await __run_once()\n",
 "    for _ in range(64):\n        if not (__has_unwait_task() or asyncio.get_event_loop().new_task_run):\n            break\n        await __run_once()\n",
 "a chain of more than 64 wake-ups within one cycle",
 "the rest of the chain runs in the next cycle",
'''
d = FakeDUT(["a"])
async def test():
    start_clock(d)
    ev = [toffee.Event() for _ in range(200)]
    log = []
    async def hop(i):
        await ev[i].wait()
        log.append(d.cycles)
        if i + 1 < len(ev):
            ev[i + 1].set()
    for i in range(len(ev)):
        create_task(hop(i))
    await ClockCycles(d, 2)
    ev[0].set()
    await ClockCycles(d, 3)
    assert log == [2] * 200, sorted(set(log))
toffee.run(test)
''')
seed("a02-rising-multibit", "A02", "toffee/triggers.py",
 "    while old_value != 0 or pin.value == old_value:\n",
 "    while pin.value <= old_value:\n",
 "a multi-bit pin that goes from one nonzero value to a larger one",
 "RisingEdge returns without the pin having been zero",
'''
wave = [0, 1, 1, 0, 1, 1]
wave = [1, 1, 2, 0, 3, 3, 3, 3]
def step(d):
    d.a.xdata.raw = wave[min(d.cycles, 7)]
d = FakeDUT(["a"], on_step=step)
d.a.xdata.raw = 1
async def test():
    start_clock(d)
    await RisingEdge(d.a)
    return d.cycles
assert toffee.run(test) == 4
''')
seed("a03-env-list", "A03", "toffee/asynchronous.py",
 "        if not isinstance(args, tuple):\n            args = (args,)\n",
 "        if not isinstance(args, (tuple, list)):\n            args = (args,)\n",
 "an env_handle that returns a list (say, of environments)",
 "the test receives the list's items as separate arguments",
'''
d = FakeDUT(["a"])
def env():
    start_clock(d)
    return [d]
async def test(x):
    await ClockCycles(d, 1)
    assert x == [d], x
    return "done"
assert toffee.run(test, env_handle=env) == "done"
''')
seed("a05-zero-delay", "A05", "toffee/delay.py",
 "        return self.value_list[0]\n",
 "        return self.value_list[0] if self.delay else self.signal.value\n",
 "a Delayer of delay zero read after the signal changed within the cycle",
 "the current value is returned in place of the latest sample",
'''
from toffee.delay import Delayer
d = FakeDUT(["a"])
async def test():
    start_clock(d)
    x = Delayer(d.a, 0)
    d.a.value = 7
    await ClockCycles(d, 1)
    d.a.value = 9
    assert x.value == 7, x.value
toffee.run(test)
''')
ENV = '''
class A(Agent):
    @driver_method()
    async def send(self, x, y=3):
        await self.bundle.step(1)
        return x
    @driver_method()
    async def other(self):
        await self.bundle.step(1)
        return None
    @monitor_method()
    async def mon(self):
        return self.bundle.a.value or None
class B(Bundle):
    a = Signal()
'''
seed("m01-suffix-path", "M01", "toffee/model.py",
 "            if driver_hook.__driver_path__ == driver_path:\n",
 "            if driver_path.endswith(driver_hook.__driver_path__):\n",
 "an env in which one agent's name ends with another's (in and main, say)",
 "hooks for the one agent's driver are also invoked for the other's",
ENV + '''
class E(Env):
    def __init__(self, d):
        super().__init__()
        self.ain = A(B().bind(d))
        self.main = A(B().bind(d))
        self.xmain = A(B().bind(d))
class M(Model):
    def __init__(self):
        super().__init__()
        self.log = []
    @driver_hook("main.send")
    def h(self, x, y=3):
        self.log.append(x)
d = FakeDUT(["a"])
async def test():
    start_clock(d)
    e, m = E(d), M()
    e.attach(m)
    await e.xmain.send(1)
    await e.main.send(2)
    await ClockCycles(d, 2)
    assert m.log == [2], m.log
toffee.run(test)
''')
seed("m03-falsy-result", "M03", "toffee/_base_agent.py",
 "                if model_result[1] is not None:\n",
 "                if model_result[1]:\n",
 "a hook that returns a falsy value (0, False, an empty list) for a call that returned another",
 "the difference is not compared and run() passes",
ENV + '''
class E(Env):
    def __init__(self, d):
        super().__init__()
        self.ag = A(B().bind(d))
class M(Model):
    @driver_hook("ag.send")
    def h(self, x, y=3):
        return 0
d = FakeDUT(["a"])
async def test():
    start_clock(d)
    e, m = E(d), M()
    e.attach(m)
    await e.ag.send(1)
    await ClockCycles(d, 2)
failed = False
try:
    toffee.run(test)
except Exception:
    failed = True
assert failed
''')
seed("m04-lone-argument", "M04", "toffee/_base_agent.py",
 "            args = next(iter(args_dict.values())) if len(args_dict) == 1 else args_dict\n",
 "            if len(arg_list) + len(kwarg_list) == 1:\n                args = next(iter(args_dict.values()))\n            else:\n                args = args_dict\n",
 "a driver method with defaults called with a single argument, into a DriverPort",
 "the port gets the argument alone, without the defaults",
ENV + '''
class E(Env):
    def __init__(self, d):
        super().__init__()
        self.ag = A(B().bind(d))
class M(Model):
    def __init__(self):
        super().__init__()
        self.p = DriverPort("ag.send")
d = FakeDUT(["a"])
async def test():
    start_clock(d)
    e, m = E(d), M()
    e.attach(m)
    await e.ag.send(1)
    assert dict(await m.p()) == {"x": 1, "y": 3}
toffee.run(test)
''')
seed("m05-monitor-hook-unmatched", "M05", "toffee/model.py",
 "            if not monitor_hook.__matched__[0]:\n",
 "            if not any(h.__matched__[0] for h in self.all_monitor_hooks):\n",
 "a model with one matching and one misnamed monitor hook",
 "attach accepts the model although a monitor hook names nothing",
ENV + '''
class E(Env):
    def __init__(self, d):
        super().__init__()
        self.ag = A(B().bind(d))
class M(Model):
    @monitor_hook("ag.mon")
    def h(self, x):
        pass
    @monitor_hook("ag.nothing")
    def g(self, x):
        pass
d = FakeDUT(["a"])
async def test():
    start_clock(d)
    e, m = E(d), M()
    try:
        e.attach(m)
    except ValueError:
        return "refused"
assert toffee.run(test) == "refused"
''')
seed("m06-unattach-monitors", "M06", "toffee/env.py",
 "                monitor.model_infos.pop(model)\n",
 "                if monitor.get_queue is None:\n                    monitor.model_infos.pop(model)\n",
 "unattaching a model after start_monitor was used on a monitor it listens to",
 "the unattached model goes on receiving the monitored values",
ENV + '''
class E(Env):
    def __init__(self, d):
        super().__init__()
        self.ag = A(B().bind(d))
class M(Model):
    def __init__(self):
        super().__init__()
        self.log = []
    @monitor_hook("ag.mon")
    def h(self, x):
        self.log.append(x)
d = FakeDUT(["a"])
async def test():
    start_clock(d)
    e, m = E(d), M()
    e.attach(m)
    e.ag.start_monitor("mon")
    e.unattach(m)
    d.a.value = 5
    await ClockCycles(d, 3)
    assert m.log == [], m.log
toffee.run(test)
''')
seed("m07-drop-oldest", "M07", "toffee/_base_agent.py",
 "                        error(\n                            f\"the get_queue in {self.path} is full, the value {ret} is dropped\"\n                        )\n                        continue\n",
 "                        error(\n                            f\"the get_queue in {self.path} is full, the value {ret} is dropped\"\n                        )\n                        self.get_queue.get_nowait()\n",
 "a monitor whose queue is full, read afterwards",
 "the oldest value is dropped in place of the reported one",
ENV + '''
class E(Env):
    def __init__(self, d):
        super().__init__()
        self.ag = A(B().bind(d))
d = FakeDUT(["a"])
async def test():
    start_clock(d)
    e = E(d)
    e.ag.start_monitor("mon", 2)
    for i in range(5):
        d.a.value = i + 1
        await ClockCycles(d, 1)
    first = await e.ag.mon()
    second = await e.ag.mon()
    assert (first, second) == (2, 3) or (first, second) == (1, 2), (first, second)
toffee.run(test)
''')
seed("e01-priority-order", "E01", "toffee/executor.py",
 "        self.__coros[sche_group].append((coro, sche_order, priority))\n",
 "        group = self.__coros[sche_group]\n        group.append((coro, sche_order, priority))\n        group.sort(key=lambda task: 99 if task[2] is None else task[2])\n",
 "two calls in one group, the later with a higher priority",
 "the calls of the group run in priority order instead of the order added",
ENV + '''
class E(Env):
    def __init__(self, d):
        super().__init__()
        self.ag = A(B().bind(d))
d = FakeDUT(["a"])
async def test():
    start_clock(d)
    e = E(d)
    async with Executor() as ex:
        ex(e.ag.send(1), priority=5)
        ex(e.ag.send(2), priority=1)
        ex(e.ag.send(3), priority=3)
    assert ex.get_results() == {"ag.send": [1, 2, 3]}, ex.get_results()
toffee.run(test)
''')
seed("e02-completion-order", "E02", "toffee/executor.py",
 "        results = []\n        for task in self.__uncompleted:\n            results.append(await task)\n        self.__set_results(results)\n",
 "        results = []\n        for task in asyncio.as_completed(self.__uncompleted):\n            results.append(await task)\n        self.__set_results(results)\n",
 "exit none or any, groups that end in another order than they were added, wait_all",
 "get_results() maps groups to the results of others",
'''
d = FakeDUT(["a"])
async def test():
    start_clock(d)
    async def slow():
        await ClockCycles(d, 4)
        return "slow"
    async def fast():
        await ClockCycles(d, 1)
        return "fast"
    async with Executor(exit="none") as ex:
        ex(slow())
        ex(fast())
    await ex.wait_all()
    assert ex.get_results() == {"slow": "slow", "fast": "fast"}, ex.get_results()
toffee.run(test)
''')
seed("f01-reset-covered", "F01", "toffee/funcov.py",
 "        self.cov_points[name][\"hinted\"] = False\n        self.hinted = False\n        return self\n",
 "        self.cov_points[name][\"hinted\"] = False\n        return self\n",
 "resetting a point of a group that was completely covered",
 "the group still counts as covered",
'''
from toffee.funcov import CovGroup, Eq
class T: value = 1
g = CovGroup("g")
g.add_watch_point(T(), {"one": Eq(1)}, name="p")
g.sample()
assert g.is_all_covered()
g.reset_point("p")
assert not g.is_all_covered()
''')
seed("f02-add-after-stop", "F02", "toffee/funcov.py",
 "            \"functions\": {},\n        }\n        self.hinted = False\n",
 "            \"functions\": {},\n        }\n",
 "adding a point to a group that stopped by itself",
 "the new point is never sampled",
'''
from toffee.funcov import CovGroup, Eq
class T: value = 1
g = CovGroup("g")
g.add_watch_point(T(), {"one": Eq(1)}, name="p")
g.sample()
g.add_watch_point(T(), {"one": Eq(1)}, name="q")
g.sample()
assert g.is_point_covered("q")
''')
seed("f03-search", "F03", "toffee/funcov.py",
 "if pattern.match(bin_key)]",
 "if pattern.search(bin_key)]",
 "a regular expression selector that occurs inside another bin's name",
 "functions are marked for bins whose name only contains the pattern",
'''
from toffee.funcov import CovGroup, Eq
class T: value = 1
g = CovGroup("g")
g.add_watch_point(T(), {"low_a": Eq(1), "a_1": Eq(2), "a_2": Eq(2)}, name="p")
g.mark_function("p", "f", "a_.")
g.mark_function("p", "h", "a")
assert sorted(g.as_dict()["points"][0]["functions"]) == ["a_1", "a_2"]
''')
seed("u01-plru-early-exit", "U01", "toffee/utils/plru.py",
 "            self.bits[i][pos] = 0 if way & (1 << (self.bits_layer_num - i - 1)) else 1\n            pos = pos * 2 + (0 if self.bits[i][pos] else 1)\n",
 "            bit = 0 if way & (1 << (self.bits_layer_num - i - 1)) else 1\n            if i and self.bits[i][pos] == bit:\n                break\n            self.bits[i][pos] = bit\n            pos = pos * 2 + (0 if bit else 1)\n",
 "eight or more ways and a use whose subtree already points away at an inner level",
 "deeper nodes are not updated; the most recently used way can be evicted soon after",
'''
from toffee.utils import PLRU
import random
rnd = random.Random(1)
p = PLRU(8)
tree = {}
def update(lo, hi, way):
    if hi - lo > 1:
        mid = (lo + hi) // 2
        tree[lo, hi] = way < mid
        update(lo, mid, way) if way < mid else update(mid, hi, way)
def get(lo, hi):
    if hi - lo == 1:
        return lo
    mid = (lo + hi) // 2
    return get(mid, hi) if tree.get((lo, hi)) else get(lo, mid)
for _ in range(500):
    w = rnd.randrange(8)
    p.update(w)
    update(0, 8, w)
    assert p.get() == get(0, 8)
''')
seed("l01-stale-handler", "L01", "toffee/logger.py",
 "    for handler in toffee_logger.handlers[:]:\n",
 "    for handler in toffee_logger.handlers:\n",
 "a setup with a log file and without console, followed by another setup",
 "the old file handler stays: records are delivered to the earlier file as well",
'''
with tempfile.TemporaryDirectory() as t:
    a, b = os.path.join(t, "a"), os.path.join(t, "b")
    toffee.setup_logging(toffee.logger.INFO, console_display=False, log_file=a)
    toffee.logger.info("one")
    toffee.setup_logging(toffee.logger.INFO, console_display=False, log_file=b)
    toffee.logger.info("two")
    toffee.setup_logging(console_display=False)
    assert "two" not in open(a).read() and "two" in open(b).read()
''')
seed("d01-release-ignored", "D01", "toffee/debug.py",
 "        signal.SetIgnoreSameDataWrite(False)\n        signal.AsVPIWriteRelease()\n        signal.value = signal.value\n",
 "        signal.AsVPIWriteRelease()\n        signal.value = signal.value\n",
 "releasing a forced signal on a simulator that drops writes of the present value",
 "trelease has no effect, the signal stays forced",
'''
class S:
    def __init__(self): self.ignore, self.mode, self.forced, self.v = True, "", False, 0
    def SetIgnoreSameDataWrite(self, on): self.ignore = on
    def AsVPIWriteForce(self): self.mode = "f"
    def AsVPIWriteRelease(self): self.mode = "r"
    def AsVPIWriteNoDelay(self): self.mode = ""
    def W(self): return 8
    @property
    def value(self): return self.v
    @value.setter
    def value(self, v):
        if self.ignore and v == self.v: return
        if self.mode == "r": self.forced = False; return
        if self.mode == "f": self.forced = True
        self.v = v
class D:
    def __init__(self): self.s = S()
    def GetInternalSignal(self, n): return self.s if n == "s" else None
    def RefreshComb(self): pass
from toffee.debug import get
d = D()
p = get(d)
p.onecmd("tforce s 4")
assert d.s.forced
p.onecmd("trelease s")
assert not d.s.forced
''')
