# further seeds
seed("m08-exit-any-name", "M08", "toffee/executor.py",
 '''        elif self.exit == "any":
            return await self.__exit_any()
        else:
            raise ValueError(f"Invalid exit option: {self.exit}")
''',
 '''        elif self.exit in ("any", "first"):
            return await self.__exit_any()
        elif self.exit:
            raise ValueError(f"Invalid exit option: {self.exit}")
''',
 "an Executor with the exit option None or an empty string",
 "the option is accepted and the calls are silently not made",
'''
d = FakeDUT(["a"])
async def job():
    return 1
async def test():
    start_clock(d)
    for bad in ("", None, "first", "nope"):
        c = job()
        try:
            async with Executor(exit=bad) as ex:
                ex(c)
        except ValueError:
            c.close()
            continue
        raise AssertionError(f"accepted {bad!r}")
toffee.run(test)
''')
seed("m08-agents-and-name", "M08", "toffee/model.py",
 '''        agent_name == "" or agents == []
    ), "agent_name and agents cannot be set at the same time"
''',
 '''        agent_name == "" or agents == [] or methods != []
    ), "agent_name and agents cannot be set at the same time"
''',
 "an agent hook with agent_name, agents and methods",
 "the contradicting declaration is accepted",
'''
for kw in (dict(), dict(methods=["a.b"])):
    try:
        agent_hook("a", agents=["b"], **kw)
    except AssertionError:
        continue
    raise SystemExit(f"accepted with {kw}")
''')
seed("m08-list-bins", "M08", "toffee/funcov.py",
 '''                for c in v:
                    if not callable(c):
''',
 '''                for c in v[:1]:
                    if not callable(c):
''',
 "a watch point with a list bin whose second condition is not callable",
 "the watch point is accepted and a later sample() fails",
'''
from toffee.funcov import *
class T:
    value = 1
g = CovGroup("g")
g.add_watch_point(T, {"a": CovEq(1)}, name="ok")
try:
    g.add_watch_point(T, {"a": [CovEq(1), 3]}, name="bad")
except ValueError:
    pass
else:
    raise SystemExit("accepted")
g.sample()
assert [p["name"] for p in g.as_dict()["points"]] == ["ok"]
''')
seed("m08-delayer-late-refusal", "M08", "toffee/delay.py",
 '''        assert delay >= 0, "Delay should be greater than or equal to 0."

        self.signal = signal
        self.delay = delay
        self.value_list = []

        loop = asyncio.get_event_loop()
        if not hasattr(loop, "delayer_list"):
            loop.delayer_list = []
        asyncio.get_event_loop().delayer_list.append(self)
''',
 '''        self.signal = signal
        self.delay = delay
        self.value_list = []

        loop = asyncio.get_event_loop()
        if not hasattr(loop, "delayer_list"):
            loop.delayer_list = []
        asyncio.get_event_loop().delayer_list.append(self)

        assert delay >= 0, "Delay should be greater than or equal to 0."
''',
 "a Delayer with a negative delay whose refusal is handled, then a clock cycle",
 "the refused delayer is still sampled and fails the run at the end of the cycle",
'''
d = FakeDUT(["a"])
async def test():
    start_clock(d)
    try:
        Delayer(d.a, -1)
    except AssertionError:
        pass
    else:
        raise SystemExit("accepted")
    ok = Delayer(d.a, 1)
    await ClockCycles(d, 4)
    assert ok.value == 0, ok.value
toffee.run(test)
''')
seed("m08-priority-range", "M08", "toffee/executor.py",
 '''        if priority is not None:
            assert 0 <= priority <= 99, "Priority should be between 0 and 99"

            driver''',
 '''        if priority:
            assert 0 <= priority <= 99, "Priority should be between 0 and 99"

            driver''',
 "priority 0 given to the Executor for a coroutine that is no driver call",
 "the priority is silently ignored instead of refused",
'''
d = FakeDUT(["a"])
async def job():
    return 1
async def test():
    start_clock(d)
    for bad in (0, 5, 99):
        c = job()
        ex = Executor()
        try:
            ex(c, priority=bad)
        except AssertionError:
            c.close()
            continue
        c.close()
        raise AssertionError(f"accepted {bad}")
toffee.run(test)
''')
seed("m08-port-maxsize", "M08", "toffee/model.py",
 '''            maxsize > 0 or maxsize == -1
''',
 '''            maxsize >= -1
''',
 "a port declared with maxsize 0",
 "the port is accepted and drops every value",
'''
for make in (lambda n: DriverPort("a.b", maxsize=n), lambda n: MonitorPort(agent_name="a", maxsize=n), lambda n: AgentPort("a", n)):
    for n in (0, -2):
        try:
            make(n)
        except AssertionError:
            continue
        raise SystemExit(f"accepted {n}")
    make(-1), make(1)
''')
