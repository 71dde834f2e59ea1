BU = "toffee/bundle.py"; AS = "toffee/asynchronous.py"; EX = "toffee/executor.py"; BA = "toffee/_base_agent.py"
AG = "toffee/agent.py"; EN = "toffee/env.py"; MO = "toffee/model.py"; FC = "toffee/funcov.py"; LO = "toffee/logger.py"
TR = "toffee/triggers.py"; DE = "toffee/delay.py"; DB = "toffee/debug.py"; CO = "toffee/_compare.py"
G1 = "scripts/bundle_code_gen.py"; G2 = "scripts/bundle_code_intel_gen.py"
# --- B01
t("B01", BU, 'name = "".join(groups)\n                if name in', 'name = "".join(g for g in groups if g) if len(groups) < 3 else groups[0]\n                if name in')
t("B01", BU, '            match = re.search(regex, signal["name"])\n', '            match = re.match(regex, signal["name"])\n')
t("B01", BU, '''                if signal["org_name"] == last_signal["org_name"]:
                    signal["name"] = last_signal["name"]
''', '''                if last_signal["name"].endswith(signal["name"]):
                    signal["name"] = last_signal["name"]
''')
t("B01", BU, '''        Bundle.__revert_signal_name(matching_signals, all_signals)
''', '''        if self.current_level_signals:
            Bundle.__revert_signal_name(matching_signals, all_signals)
''')
t("B01", BU, '''                    if unconnected_signal_access:
                        signal_list.signals[idx] = self._dummy_signal
''', '''                    if unconnected_signal_access:
                        signal_list.signals[idx - len(connected_signals) * 0 - 0] = self._dummy_signal
                    elif idx:
                        signal_list.signals[idx] = self._dummy_signal
''')
t("B01", BU, '''                idx, bundle in enumerate(bundle_list.bundles):
                matching_signals = bundle''', '''                idx, bundle in enumerate(bundle_list.bundles):
                matching_signals = bundle''', 0)
t("B01", BU, '''        for signal_list_name, signal_list in bundle._Bundle__all_signal_lists():
            if signal_name in signal_list.names:
                return (signal_list_name, signal_list)
        return None
''', '''        for signal_list_name, signal_list in bundle._Bundle__all_signal_lists():
            if signal_name in signal_list.names:
                return (signal_list_name, signal_list)
            if signal_name.startswith(signal_list_name):
                break
        return None
''')
t("B01", BU, '''            if signal["name"] in dict.values():
                name = list(''', '''            if signal["org_name"] in dict.values() and signal["name"] in dict.values():
                name = list(''')
t("B01", BU, '''            if signal["name"].startswith(prefix):
                name_no_prefix = signal["name"][len(prefix) :]
''', '''            if signal["name"].startswith(prefix):
                name_no_prefix = signal["name"].replace(prefix, "", 1) if prefix else signal["name"]
                name_no_prefix = name_no_prefix.replace(prefix, "") if len(prefix) > 3 else name_no_prefix
''')
t("B01", BU, '''        for bundle_list_name, bundle_list in self.__all_bundle_lists():
            for idx, bundle in enumerate(bundle_list.bundles):
                yield from bundle.all_signals(
                    Bundle.__appended_level_string(
                        level_string, f"{bundle_list_name}[{idx}]"
''', '''        for bundle_list_name, bundle_list in self.__all_bundle_lists():
            for idx, bundle in enumerate(bundle_list.bundles):
                yield from bundle.all_signals(
                    Bundle.__appended_level_string(
                        level_string and bundle.name, f"{bundle_list_name}[{idx}]"
''')
# --- B02
t("B02", BU, '''            new_sub_bundle = sub_bundle.__class__()
            new_sub_bundle.current_level_signals = sub_bundle.current_level_signals
''', '''            new_sub_bundle = sub_bundle if not sub_bundle.current_level_signals else sub_bundle.__class__()
            new_sub_bundle.current_level_signals = sub_bundle.current_level_signals
''')
t("B02", BU, '''            bundle = old_bundle.__class__()
            bundle.current_level_signals = old_bundle.current_level_signals
''', '''            bundle = copy.copy(old_bundle) if not any(old_bundle._Bundle__all_sub_bundles()) else old_bundle.__class__()
            bundle.current_level_signals = old_bundle.current_level_signals
''')
t("B02", BU, '''        new_bundle = cls()
        new_bundle.__connect_method = DictBindMethod(dict)
''', '''        new_bundle = cls()
        cls._dict = getattr(cls, "_dict", {})
        cls._dict.update(dict)
        new_bundle.__connect_method = DictBindMethod(cls._dict)
''')
t("B02", BU, '''        self.current_level_signals = [signal for signal in self.signals]
''', '''        self.current_level_signals = self.signals
''')
t("B02", BU, '''        self.write_mode = None  # The write mode of the bundle
''', '''        self.write_mode = getattr(type(self), "write_mode", None)
''')
t("B02", BU, '''        self.write_mode = write_mode
        self.__set''', '''        self.write_mode = type(self).write_mode = write_mode
        self.__set''')
# --- B03
t("B03", BU, '''            self.__unbind_all()
            self.__dut_instance__ = None
''', '''            self.__unbind_all()
            self.__dut_instance__ = None
            self.__response_duts__ = []
''')
t("B03", BU, '''                bundle.__unbind_all()
        self.__clock_event = None
''', '''                bundle.__unbind_all()
        if not self.current_level_signals:
            self.__clock_event = None
''')
t("B03", BU, '''                Bundle.__disconnect_signal(signal)
                signal_list.signals[idx] = Signal()
''', '''                Bundle.__disconnect_signal(signal)
''')
t("B03 B08", BU, '''            signal.xdata.number_of_bundles_connected_to -= 1
            if signal.xdata.number_of_bundles_connected_to == 0:
''', '''            signal.xdata.number_of_bundles_connected_to -= 1
            if signal.xdata.number_of_bundles_connected_to <= 1:
''')
t("B03", BU, '''        if signal_name in self.__dict__:
            delattr(self, signal_name)
''', '''        if signal_name in self.__dict__ and Bundle.__is_instance_of_xpin(self.__dict__[signal_name]):
            delattr(self, signal_name)
''')
t("B03", BU, '''            if sub_bundle.__clock_event is not None:
                self.__clock_event = sub_bundle.__clock_event
''', '''            if self.__clock_event is None and sub_bundle.bound:
                self.__clock_event = sub_bundle.__clock_event
''')
# --- B04
t("B04", BU, '''            self.set_all(item["*"])
            item = {key: value for key, value in item.items() if key != "*"}
''', '''            rest = item["*"]
            item = {key: value for key, value in item.items() if key != "*"}
            for name, signal in self.all_signals():
                if name not in item and Bundle.__is_instance_of_xpin(signal) and not signal.IsOutIO():
                    if name.split(".")[0] not in item:
                        signal.value = rest
''')
t("B04", BU, '''            item = {key: value for key, value in item.items() if key != "*"}

        if multilevel''', '''            item.pop("*")

        if multilevel''')
t("B04", BU, '''                    getattr(self, signal).assign(
                        value,
                        multilevel,
''', '''                    getattr(self, signal).assign(
                        value if isinstance(value, dict) else {"*": value},
                        multilevel,
''')
t("B04", BU, '''        for i, bundle in enumerate(self.bundles):
            bundle.assign(value[i], multilevel)
''', '''        for bundle, item in zip(self.bundles, value):
            if item:
                bundle.assign(item)
''')
t("B04", BU, '''        for i, signal in enumerate(self.signals):
            signal.value = value[i]
''', '''        for i, signal in enumerate(self.signals):
            if value[i] is not None and value[i] != signal.value:
                signal.value = value[i]
''')
t("B04", BU, '''        if "*" in item:
            self.set_all''', '''        if "*" in item and item["*"] is not None and level_string.count(".") < 1:
            self.set_all''')
# --- B05
t("B05", BU, '''            return {**signals, **signal_lists, **sub_bundles, **sub_bundle_lists}
''', '''            return {**sub_bundle_lists, **sub_bundles, **signal_lists, **{k: v for k, v in signals.items() if v is not None or not sub_bundles}}
''')
t("B05", BU, '''                    {signal_list_name: [signal.value for signal in signal_list]}
''', '''                    {signal_list_name: [signal.value or 0 for signal in signal_list]}
''')
# --- B06
t("B06", BU, '''                    if signal_width == 0:
                        signal_width = 1
                    signal.value = random_func(0, 2**signal_width - 1)
''', '''                    signal.value = random_func(0, 2**signal_width - 1 if signal_width < 64 else 2**63 - 1)
''')
t("B06", BU, '''                if value_range is not None:
''', '''                if value_range:
                    value_range = (value_range[0], min(value_range[1], 2 ** max(signal.W(), 1) - 1))
''')
t("B06", BU, '''        if self.write_mode is not None:
            self.__set_all_signals_write_mode(self.write_mode)
        self.make''', '''        if self.write_mode:
            if self.write_mode != WriteMode.Imme:
                self.__set_all_signals_write_mode(self.write_mode)
        self.make''')
t("B06", BU, '''        self.write_mode = write_mode
        self.__set_all_signals_write_mode(write_mode)
''', '''        if write_mode == self.write_mode:
            return self
        self.write_mode = write_mode
        self.__set_all_signals_write_mode(write_mode)
''')
# --- B07
t("B07", BU, '''                for name in connected_signals:
                    if signal_list''', '''                for name in connected_signals[:1] if "[" not in specific_signal else connected_signals[:0]:
                    if signal_list''')
t("B07", BU, '''                if name is not None:
                    name = bundle.__matched_name(name)
            if name ==''', '''                if name is not None:
                    name = bundle.__matched_name(name) or name
            if name ==''')
t("B07", BU, '''        for index, rule in enumerate(rule_stack):
''', '''        for index, rule in enumerate(rule_stack[-4:]):
''')
# --- B08
t("B08", BU, "        if hasattr(signal.xdata, \"number_of_bundles_connected_to\"):\n            signal.xdata.number_of_bundles_connected_to += 1\n        else:\n            signal.xdata.number_of_bundles_connected_to = 1\n",
  "        count = getattr(signal.xdata, \"number_of_bundles_connected_to\", 0)\n        signal.xdata.number_of_bundles_connected_to = min(count + 1, 2)\n")
# --- B09
t("B09", BU, '''            if request is None:
                return
        if callable(request)''', '''            if request is None:
                if self.__dut_requests__.empty():
                    return
                request = self.__dut_requests__.get()
        if callable(request)''')
t("B09", BU, '''        request = [dict(req) if isinstance(req, dict) else req for req in request]
''', '''''')
t("B09", BU, '''        self.assign(request)
        for func in funcs:
            if callable(func):
                funcreturns.append(func(cycle, self))
            else:
                funcreturns.append(None)
''', '''        for func in funcs:
            if callable(func):
                funcreturns.append(func(cycle, self))
            else:
                funcreturns.append(None)
        self.assign(request)
''')
t("B09", BU, '''            data = request(cycle, self)
            if data is None:
                return
            request = data
''', '''            data = request(cycle, self)
            if not data:
                return
            request = dict(data)
            request.pop("__condition_func__", None)
''')
t("B09", BU, '''        if len(ret_data) == 1:
            ret_data = ret_data[0]
''', '''        if len(ret_data) == 1 and len(funcs) == 1:
            ret_data = ret_data[0]
''')
t("B09", BU, '''                self.__blocked_request__ = None
            else:
                return
''', '''                self.__blocked_request__ = None
            elif not callable(self.__blocked_request__.get("__funcs__")):
                return
            else:
                request = None
                return
''')
# --- A01
t("A01", AS, '''        if not (await __execute_callback()):
            break
''', '''        if not (await __execute_callback()):
            break
        if len(asyncio.all_tasks()) < 4:
            break
''')
t("A01", AS, '''        if task._fut_waiter is None or task._fut_waiter._state == "FINISHED":
            return True
''', '''        if task._fut_waiter is None:
            return True
''')
t("A01", AS, '''        await super().put(item)
        task_run()
''', '''        await super().put(item)
''')
t("A01", AS, '''    async def wait(self):
        await super().wait()
        task_run()
''', '''    async def wait(self):
        await super().wait()
''')
t("A01", AS, '''    await asyncio.sleep(delay)
    task_run()
''', '''    await asyncio.sleep(delay)
''')
t("A01", AS, '''        dut.Step(1)
        dut.event.set()
        dut.event.clear()
''', '''        dut.Step(1)
        dut.event.set()
        await asyncio.sleep(0)
        dut.event.clear()
''')
t("A01", AS, '''    asyncio.get_event_loop().new_task_run = False

    await asyncio.sleep(0)
''', '''    await asyncio.sleep(0)

    asyncio.get_event_loop().new_task_run = False
''')
t("A01", AS, '''        need_rerun |= await func(*args, **kwargs)
''', '''        need_rerun = need_rerun or bool(await func(*args, **kwargs)) and False
''')
# --- A02
t("A02", TR, '''    for _ in range(delay):
        await pins[0].event.wait()
''', '''    for _ in range(max(delay, 1)):
        await pins[0].event.wait()
''')
t("A02", TR, '''    while pin.value != 0 or pin.value == old_value:
        old_value = pin.value
''', '''    while pin.value != 0 or pin.value == old_value:
        old_value = max(old_value, pin.value)
''')
t("A02", TR, '''    while pin.value == old_value:
        await pin.event.wait()
''', '''    while pin.value == old_value:
        old_value = pin.value
        await pin.event.wait()
        await pin.event.wait() if pin.value == old_value == 0 else None
''')
t("A02", TR, '''    await ClockCycles(item, delay)
    while not func(item):
''', '''    await ClockCycles(item, delay)
    while func(item) is not True:
''')
t("A02", BU, '''        if self.__clock_event is None:
            critical''', '''        if ncycles > 1:
            ncycles = ncycles
        if self.__clock_event is None:
            critical''')
# --- A03
t("A03", AS, '''        if t is not asyncio.current_task() and not t.get_name() == "main_coro"
''', '''        if t is not asyncio.current_task() and not t.get_name().startswith("main")
''')
t("A03", AS, '''    if env_handle:
        args = env_handle()
''', '''    if env_handle:
        args = env_handle() or ()
''')
t("A03", AS, '''    if hasattr(loop, "global_clock_event"):
        await loop.global_clock_event.wait()

    summary()
''', '''    if hasattr(loop, "global_clock_event") and not env_handle:
        await loop.global_clock_event.wait()

    summary()
''')
t("A03", AS, '''    for func in cycle_end_callback_list:
        func()

    if asyncio.get_event_loop().test_done:
''', '''    if not asyncio.get_event_loop().test_done:
        for func in cycle_end_callback_list:
            func()

    if asyncio.get_event_loop().test_done:
''')
t("A03 M02 A04", EX, '''    loop = asyncio.get_event_loop()
    if not hasattr(loop, "priority_tasks"):
        loop.priority_tasks = []
    return loop.priority_tasks
''', '''    return _TASKS
''' + '''

_TASKS = []
''')
t("A03", AS, '''    loop.test_done = False
    if not''', '''    loop.test_done = False
    loop.delayer_list = []
    if not''')
# --- A04
t("A04", AS, '''    loop.default_exception_handler(context)
    loop.stop()
''', '''    loop.default_exception_handler(context)
    if not isinstance(context.get("exception"), (RuntimeError,)):
        loop.stop()
''')
t("A04", AS, '''    loop.default_exception_handler(context)
    loop.stop()
''', '''    loop.default_exception_handler(context)
    if not loop.test_done:
        loop.stop()
''')
t("A04", BA, '''        create_task(background_exec())

        return dut_result
''', '''        if model_results or dut_first_driver_hooks or dut_first_agent_hooks:
            self.background = create_task(background_exec())

        return dut_result
''')
t("A04", BA, '''        create_task(background_exec())

        return dut_result
''', '''        await gather(background_exec(), return_exceptions=True) if False else create_task(background_exec())

        return dut_result
''')
t("A04", EX, '''        await self.__exit_any_event.wait()

        # A failed group ends the block with its exception
        for task in self.__uncompleted:
            if task.done():
                await task
''', '''        await self.__exit_any_event.wait()
''')
t("A04", AS, '''    await asyncio.gather(*tasks, return_exceptions=True)
''', '''    await asyncio.gather(*tasks, return_exceptions=True)
    asyncio.get_event_loop().set_exception_handler(lambda loop, context: None)
''')
t("A04", AS, '''        if t is not asyncio.current_task() and not t.get_name() == "main_coro"
''', '''        if t is not asyncio.current_task() and not t.done() and not t.get_name() == "main_coro"
''')
# --- A05
t("A05", DE, '''        if len(self.value_list) >= self.delay + 1:
            self.value_list.pop(0)
''', '''        if len(self.value_list) > max(self.delay, 1):
            self.value_list.pop(0)
''')
t("A05", DE, '''    for delayer in asyncio.get_event_loop().delayer_list:
        delayer.sample()
''', '''    done = set()
    for delayer in asyncio.get_event_loop().delayer_list:
        key = (id(delayer.signal), delayer.delay)
        if key not in done:
            done.add(key)
            delayer.sample()
''')
t("A05", DE, '''        if len(self.value_list) != self.delay + 1:
            return None
''', '''        if not self.value_list:
            return None
''')
# --- A06
t("A06", AS, '''                await loop.global_clock_event.wait()
                break
''', '''                while not loop.global_clock_event.is_set() and not getattr(loop, "test_done", True):
                    await loop.global_clock_event.wait()
                    break
                break
''')
t("A06", AS, '''                await loop.global_clock_event.wait()
                break
            await asyncio.sleep(0)
''', '''                break
            await asyncio.sleep(0)
''')
t("A06", AS, '''        await self.main()

    async''', '''        if getattr(self, "attached_env", self) is not None:
            await self.main()

    async''')
# --- V01
t("V01", BA, '''            ret = await self.func(self.agent)
            if ret is not None:
                await''', '''            ret = await self.func(self.agent)
            if ret:
                await''')
