seed("m03-dict-text", "M03", "toffee/_compare.py",
'''    return item1 == item2
''',
'''    if isinstance(item1, dict) and isinstance(item2, dict):
        return str(item1) == str(item2)
    return item1 == item2
''',
"a driver and a hook that return equal dictionaries whose keys are in another order",
"the run fails although the results are equal",
'''
class A(Agent):
    @driver_method()
    async def send(self):
        await self.bundle.step(1)
        return {"x": 1, "y": 2}
class B(Bundle):
    a = Signal()
class M(Model):
    @driver_hook("ag.send")
    def send(self):
        return {"y": 2, "x": 1}
class E(Env):
    def __init__(self, d):
        super().__init__()
        self.ag = A(B().bind(d))
        self.attach(M())
d = FakeDUT(["a"])
async def test():
    start_clock(d)
    await E(d).ag.send()
    await ClockCycles(d, 2)
toffee.run(test)
''')
seed("m04-shared-arguments", "M04", "toffee/_base_agent.py",
'''        for agent_port in model_info["agent_port"]:
            args_dict = self.__get_args_dict(arg_list, kwarg_list)
            await agent_port.put((self.path, args_dict))

        if model_info["driver_port"] is not None:
            args_dict = self.__get_args_dict(arg_list, kwarg_list)
''',
'''        args_dict = self.__get_args_dict(arg_list, kwarg_list)
        for agent_port in model_info["agent_port"]:
            await agent_port.put((self.path, args_dict))

        if model_info["driver_port"] is not None:
''',
"a model with an agent port and a driver port for the same driver of several arguments, whose reader takes entries out of the dictionary",
"the other port delivers a dictionary without these entries",
'''
class A(Agent):
    @driver_method()
    async def send(self, x, y):
        await self.bundle.step(1)
class B(Bundle):
    a = Signal()
class M(Model):
    def __init__(self):
        super().__init__()
        self.ag = AgentPort()
        self.p = DriverPort("ag.send")
class E(Env):
    def __init__(self, d):
        super().__init__()
        self.ag = A(B().bind(d))
d = FakeDUT(["a"])
async def test():
    start_clock(d)
    e, m = E(d), M()
    e.attach(m)
    await e.ag.send(1, 2)
    path, args = await m.ag()
    assert path == "ag.send" and args.pop("x") == 1
    assert dict(await m.p()) == {"x": 1, "y": 2}
toffee.run(test)
''')
seed("m07-restart-limit", "M07", "toffee/_base_agent.py",
'''        self.get_queue = Queue()
        self.get_queue_max_size = maxsize
''',
'''        if self.get_queue is None:
            self.get_queue = Queue()
            self.get_queue_max_size = maxsize
''',
"a monitor that is started again with a larger maxsize",
"values are dropped at the first maxsize",
'''
class A(Agent):
    @monitor_method()
    async def mon(self):
        return "v"
class B(Bundle):
    a = Signal()
class E(Env):
    def __init__(self, d):
        super().__init__()
        self.ag = A(B().bind(d))
d = FakeDUT(["a"])
async def test():
    start_clock(d)
    e = E(d)
    e.ag.start_monitor("mon", 1)
    e.ag.start_monitor("mon", 8)
    await ClockCycles(d, 6)
    assert e.ag.monitor_size("mon") >= 5, e.ag.monitor_size("mon")
toffee.run(test)
''')
seed("a02-latched-pins", "A02", "toffee/triggers.py",
'''    while not all(pin.value for pin in pins):
        await pins[0].event.wait()
''',
'''    waiting = [pin for pin in pins if not pin.value]
    while waiting:
        await pins[0].event.wait()
        waiting = [pin for pin in (waiting if len(pins) > 2 else pins) if not pin.value]
''',
"AllValid of three or more pins that are valid in turn, but not together",
"returns once every pin was valid at some time",
'''
d = FakeDUT(["a", "b", "c"])
async def test():
    start_clock(d)
    async def drive():
        for k in range(12):
            d.a.value, d.b.value, d.c.value = k % 3 == 0 or k > 9, k % 3 == 1 or k > 9, k % 3 == 2 or k > 9
            await ClockCycles(d, 1)
    create_task(drive())
    await AllValid(d.a, d.b, d.c)
    assert d.a.value and d.b.value and d.c.value
toffee.run(test)
''')
seed("b09-blocked-copy", "B09", "toffee/bundle.py",
'''                self.__blocked_request__ = request
                return
''',
'''                self.__blocked_request__ = dict(request)
                return
''',
"a request with a condition that is false at first and with return bundles",
"its result is missing",
'''
class B(Bundle):
    a = Signal()
d = FakeDUT(["a"])
x = B().bind(d)
r = x.process_requests([{"a": 4, "__condition_func__": lambda c, b, args: c > 3, "__return_bundles__": x}])
assert len(r) == 1, r
''')
seed("f02-clear-option", "F02", "toffee/funcov.py",
'''        clear all points
        """
        self.init()
''',
'''        clear all points
        """
        self.disable_sample_when_point_hinted = True
        self.init()
''',
"a group made not to stop at covered points that is cleared and gets points again",
"points added after clear() are marked once, sampling stops",
'''
from toffee.funcov import CovGroup, Eq
class T: value = 1
g = CovGroup("g", disable_sample_when_point_hinted=False)
g.clear()
g.add_watch_point(T(), {"a": Eq(1)}, name="p")
for _ in range(5):
    g.sample()
assert g.as_dict()["points"][0]["bins"][0]["hints"] == 5, g.as_dict()
''')
