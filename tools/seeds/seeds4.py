seed("b10-once-per-name", "B10", "toffee/bundle.py",
'''        for signal in self.current_level_signals:
            if signal not in connected_signals:
                rule_string = Bundle.__get_rule_string(rule_stack, signal)
                warning(
''',
'''        for signal in self.current_level_signals:
            if signal not in connected_signals:
                rule_string = Bundle.__get_rule_string(rule_stack, signal)
                if any(signal in x.current_level_signals for x in rule_stack[:-1]):
                    continue
                warning(
''',
"a bundle and a bundle nested in it that have a signal of the same name, the nested one without a pin",
"the nested signal without a pin is not reported (nor made a dummy)",
'''
import toffee.bundle
seen = []
toffee.bundle.warning = seen.append
class S(Bundle):
    a, b = Signals(2)
class T(Bundle):
    a = Signal()
    s = S.from_prefix("s_")
T().bind(FakeDUT(["a", "s_b"]))
assert any('"s.a"' in m for m in seen), seen
''')
seed("b10-dict-keys", "B10", "toffee/bundle.py",
'''f"The signal names {unconnected_signal_names} in''',
'''f"The signal names {unconnected_signal_names[:6]} in''',
"a connection dictionary with more than six keys that lead to no signal",
"the warning names only the first six",
'''
import toffee.bundle
seen = []
toffee.bundle.warning = seen.append
class B(Bundle):
    a = Signal()
B.from_dict({"a": "p", **{f"no{i}": f"p{i}" for i in range(9)}})
assert len(seen) == 1 and all(f"'no{i}'" in seen[0] for i in range(9)), seen
''')
seed("e01-default-group", "E01", "toffee/executor.py",
'''            if driver is not None:
                sche_group = driver.path
''',
'''            if driver is not None:
                sche_group = driver.path
            elif coro.__name__ in self.__coros and coro.cr_code is not self.__coros[coro.__name__][0][0].cr_code:
                sche_group = coro.__qualname__
''',
"two functions of the same name, that are no drivers, in one block",
"they run in different groups",
'''
d = FakeDUT(["a"])
def make():
    async def work():
        await ClockCycles(d, 3)
        return d.cycles
    return work
def make2():
    async def work():
        await ClockCycles(d, 2)
        return d.cycles
    return work
async def test():
    start_clock(d)
    async with Executor() as ex:
        ex(make()())
        ex(make2()())
    assert ex.get_results() == {"work": [3, 5]}, ex.get_results()
toffee.run(test)
''')
seed("a01-named-loop", "A01", "toffee/asynchronous.py",
'''        if task.get_name() == "__clock_loop":
''',
'''        if "loop" in task.get_name():
''',
"a task with a name of its own, that contains 'loop', with work left in a cycle",
"the clock is stepped before the task has settled",
'''
d = FakeDUT(["a"])
async def test():
    start_clock(d)
    log = []
    async def work():
        for _ in range(20):
            await asyncio.sleep(0)
        log.append(d.cycles)
    await ClockCycles(d, 1)
    t = create_task(work())
    t.set_name("main loop of the driver")
    await ClockCycles(d, 3)
    assert log == [1], log
toffee.run(test)
''')
seed("a06-late-clock", "A06", "toffee/asynchronous.py",
'''        while True:
            loop = asyncio.get_event_loop()
            if hasattr(loop, "global_clock_event"):
''',
'''        for _ in range(100):
            loop = asyncio.get_event_loop()
            if hasattr(loop, "global_clock_event"):
''',
"a component created more than a hundred rounds of the event loop before start_clock",
"its main starts before the clock does",
'''
from toffee.asynchronous import Component
d = FakeDUT(["a"])
log = []
class C(Component):
    async def main(self):
        log.append(d.cycles)
async def test():
    C()
    for _ in range(300):
        await asyncio.sleep(0)
    assert log == [], log
    start_clock(d)
    await ClockCycles(d, 3)
    assert log == [1], log
toffee.run(test)
''')
seed("g01-last-line", "G01", "scripts/bundle_code_gen.py",
'''            code_line = code_line[:-2]
            current_width -= 3

            if current_width + len(end_code) <= max_width:
''',
'''            code_line = code_line[:-2]
            current_width -= 3

            if current_width + len(end_code) <= max_width + (signals_num > 9):
''',
"ten or more signals and a max_width one short of the last line",
"the last line of the signal list is one column longer than max_width",
'''
from bundle_code_gen import gen_bundle_code_from_prefix
d = FakeDUT([f"io_s{i:02}" for i in range(20)])
for w in range(20, 100):
    code = gen_bundle_code_from_prefix("B", d, "io_", w)
    assert all(len(l.expandtabs(4)) <= w for l in code.splitlines() if l.startswith("\\t")), w
''')
seed("g01-regex-groups", "G01", "scripts/bundle_code_gen.py",
'''            groups = ["" if x is None else x for x in match.groups()]
''',
'''            groups = [x for x in match.groups() if x is not None][:9]
''',
"a regex with more than nine groups",
"names of the generated signals lack the later groups",
'''
from bundle_code_gen import gen_bundle_code_from_regex
d = FakeDUT(["abcdefghijkx", "abcdefghijky"])
code = gen_bundle_code_from_regex("B", d, "".join(f"({c})" for c in "abcdefghijk") + "(.)", 100)
ns = {}
exec(code, ns)
ns["bundle"].bind(d)
assert ns["bundle"].abcdefghijkx.xdata is d.abcdefghijkx.xdata
''')
seed("b06-prefix-exclusion", "B06", "toffee/bundle.py",
'''                signal_name not in exclude_signals
''',
'''                not any(signal_name.startswith(x) for x in exclude_signals)
''',
"randomize_all with an excluded name that starts the name of another signal",
"the other signal is left alone as well",
'''
class B(Bundle):
    v, valid, ready = Signals(3)
d = FakeDUT(["v", "valid", "ready"])
b = B().bind(d)
b.randomize_all((5, 9), exclude_signals=["v"])
assert d.v.value == 0 and d.valid.value >= 5 and d.ready.value >= 5
''')
seed("b05-tenth-element", "B05", "toffee/bundle.py",
'''                        signals[f"{bundle_list_name}[{i}].{bundle_signal}"] = value
''',
'''                        signals.setdefault(f"{bundle_list_name}[{i % 10}].{bundle_signal}", value)
''',
"a bundle list of more than ten elements, as a flat dictionary",
"the values of the elements 10 and up are missing",
'''
class S(Bundle):
    a = Signal()
class B(Bundle):
    l = BundleList(S, "l#_", 12)
d = FakeDUT([f"l{i}_a" for i in range(12)])
b = B().bind(d)
assert len(b.as_dict(multilevel=False)) == 12
''')
seed("b09-none-answers", "B09", "toffee/bundle.py",
'''        if len(funcreturns) == 1:
            funcreturns = funcreturns[0]
''',
'''        if len(funcreturns) == 1 or not any(x is not None for x in funcreturns):
            funcreturns = funcreturns[0]
''',
"a request with two or more functions, none of which returns a value",
"__funcs_return__ is None instead of a list",
'''
class B(Bundle):
    a = Signal()
d = FakeDUT(["a"])
x = B().bind(d)
r = x.process_requests([{"a": 1, "__funcs__": [lambda c, b: None, lambda c, b: None], "__return_bundles__": x}])
assert "[None, None]" in repr(r), r
''')
seed("f03-blank-lines", "F03", "toffee/funcov.py",
'''    lin_end = lin_start + len(inspect.getsourcelines(func)[0]) - 1
''',
'''    lin_end = lin_start + len([x for x in inspect.getsourcelines(func)[0] if x.strip()]) - 1
''',
"mark_function with a function that has blank lines",
"the recorded end line is too small",
'''
from toffee.funcov import CovGroup, Eq
def func():
    x = 1

    y = 2

    return x, y
class T: value = 1
g = CovGroup("g")
g.add_watch_point(T(), {"a": Eq(1)}, name="p")
g.mark_function("p", func, "a")
first = func.__code__.co_firstlineno
assert f":{first}-{first + 5}::" in repr(g.as_dict()), g.as_dict()["points"]
''')
