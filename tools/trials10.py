A="toffee/asynchronous.py"; B="toffee/bundle.py"; BA="toffee/_base_agent.py"; M="toffee/model.py"; EN="toffee/env.py"; EX="toffee/executor.py"; F="toffee/funcov.py"; L="toffee/logger.py"; D="toffee/debug.py"; TR="toffee/triggers.py"; DL="toffee/delay.py"; G="scripts/bundle_code_gen.py"; GI="scripts/bundle_code_intel_gen.py"; AG="toffee/agent.py"; U="toffee/utils/plru.py"; C="toffee/_compare.py"
# caching, keeping references, identity shortcuts, cooperating sites
# 0 component keeps its main task: failure never reported
t("A04", A, '''        create_task(self.__main_wrapper())
''','''        self._main_task = create_task(self.__main_wrapper())
''')
# 1 background comparisons kept alive
t("A04 M03", BA, '''        create_task(background_exec())

''','''        self.background = create_task(background_exec())

''')
# 2 args dict computed once and shared by ports and hooks (aliasing)
t("M04 M01", BA, '''        signature = inspect.signature(self.func)
        bound_args = signature.bind(None, *arg_list, **kwarg_list)
        bound_args.apply_defaults()
        arguments = bound_args.arguments
        # The first parameter is the agent, whatever its name
        del arguments[next(iter(signature.parameters))]
        return arguments
''','''        key = (arg_list, tuple(kwarg_list))
        if getattr(self, "_last_args", None) is not None and self._last_args[0] == key:
            return self._last_args[1]
        signature = inspect.signature(self.func)
        bound_args = signature.bind(None, *arg_list, **kwarg_list)
        bound_args.apply_defaults()
        arguments = bound_args.arguments
        # The first parameter is the agent, whatever its name
        del arguments[next(iter(signature.parameters))]
        self._last_args = (key, arguments)
        return arguments
''')
# 3 one dict shared within a call
t("M04 M01", BA, '''        for agent_port in model_info["agent_port"]:
            args_dict = self.__get_args_dict(arg_list, kwarg_list)
            await agent_port.put((self.path, args_dict))

        if model_info["driver_port"] is not None:
            args_dict = self.__get_args_dict(arg_list, kwarg_list)
''','''        args_dict = self.__get_args_dict(arg_list, kwarg_list)
        for agent_port in model_info["agent_port"]:
            await agent_port.put((self.path, args_dict))

        if model_info["driver_port"] is not None:
''')
# 4 kwargs-only defaults dropped: bind_partial w/o defaults when all given by keyword
t("M01", BA, '''        bound_args.apply_defaults()
''','''        if not (kwarg_list and arg_list):
            bound_args.apply_defaults()
''')
# 5 monitor value dedupe across models: stops at a model with a port full
t("M04 M06", BA, '''            if model_info["monitor_port"]:
                await model_info["monitor_port"].put(ret)
''','''            if model_info["monitor_port"]:
                await model_info["monitor_port"].put(ret)
                continue
''')
# 6 monitor: iterating over live dict (list snapshot lost) -> model attached within hooks; drop error path
t("M07", BA, '''                    await self.get_queue.put(ret)''','''                    if not isinstance(ret, (list, dict)) or ret:
                        await self.get_queue.put(ret)''')
# 7 start_monitor a second time keeps the old limit
t("M07", BA, '''        self.get_queue = Queue()
        self.get_queue_max_size = maxsize
''','''        if self.get_queue is None:
            self.get_queue = Queue()
            self.get_queue_max_size = maxsize
''')
# 8 monitor step counts missing cycles when the monitor took several
t("M07", BA, '''            ret = await self.func(self.agent)
            if ret is not None:
''','''            ret = await self.func(self.agent)
            if ret is None and self.get_queue is not None:
                await self.agent.monitor_step()
            if ret is not None:
''')
# 9 unattach while other env uses the same agent object
t("M06", EN, '''            for driver_method in agent.all_driver_method():
                driver = self.__get_driver(agent_name, driver_method.__name__)
                driver.model_infos.pop(model)

            for''','''            for driver_method in agent.all_driver_method():
                driver = self.__get_driver(agent_name, driver_method.__name__)
                if driver.model_infos.pop(model)["driver_port"] is not None:
                    continue

            for''')
# 10 hook marks kept over attach attempts of different env
t("M05", EN, '''        # The matched marks of hooks are shared by all instances of the model class
        model.clear_matched()
''','''        if not self.attached_models:
            model.clear_matched()
''')
# 11 failed attach leaves injected infos of monitors
t("M05 M06", EN, '''        except ValueError:
            self.__uninject_all(model)
            raise
''','''        except ValueError:
            if model.all_monitor_hooks or model.all_driver_hooks:
                self.__uninject_all(model)
            raise
''')
# 12 attach ValueError: model remains detached from old env but marks... reattach old
t("M06", EN, '''            model.attached_env.unattach(model)

''','''            if model.attached_env is not self:
                model.attached_env.unattach(model)

''')
# 13 agent hook given by agents list: only last matched
t("M01", EN, '''            agent_name_of_method == agent_hook.__agent_name__
            or agent_name_of_method in agent_hook.__agents__
        )''','''            agent_name_of_method == agent_hook.__agent_name__
            or agent_name_of_method in agent_hook.__agents__[:4]
        )''')
# 14 port's path memo: port object shared by several models / renamed
t("M05 M04", M, '''                if attr_value.name == "":
                    attr_value.name = attr
''','''                if attr_value.name == "" or len(attr) < len(attr_value.name):
                    attr_value.name = attr
''')
# 15 priority queue stable sort lost
t("M02", EX, '''sorted(__priority_tasks(), key=lambda x: x[1])''','''sorted(__priority_tasks(), key=lambda x: (x[1], x[2] is None))''')
# 16 priority tasks list cleared only when an event was given
t("M01 M07", EX, '''    executed = False
    for coro, _, done_event in''','''    executed = False
    seen = set()
    for coro, _, done_event in''')
# 17 Executor: driver prio not reset when call is in a nested executor
t("M02", EX, '''                    driver.priority = None
                    driver.sche_order = None

''','''                    driver.sche_order = None

''')
# 18 results None kept for single falsy
t("E02", EX, '''                result_dict[tasks[0]] = results[i][0]
''','''                result_dict[tasks[0]] = results[i][0] or None
''')
# 19 wait_all twice re-awaits; skip finished results when block left by any with failing
t("E02", EX, '''        if len(self.__uncompleted) == 0:
            return
''','''        if all(task.done() for task in self.__uncompleted):
            return
''')
# 20 exit any: event set only if no other group is running same driver
t("E01", EX, '''            if complete_event is not None and not complete_event.is_set():
                complete_event.set()''','''            if complete_event is not None and not complete_event.is_set() and tasks:
                complete_event.set()''')
# 21 default group from method name only when agent is anonymous
t("E01", EX, '''                sche_group = driver.path
''','''                sche_group = driver.path if driver.agent_name else coro.__qualname__
''')
# 22 delayer keeps history when delay == 0 and value None
t("A05", DL, '''        if len(self.value_list) >= self.delay + 1:
            self.value_list.pop(0)

        self.value_list.append(self.signal.value)
''','''        if len(self.value_list) >= self.delay + 1:
            self.value_list.pop(0)

        value = self.signal.value
        if value is not None or self.value_list:
            self.value_list.append(value)
''')
# 23 delayer list: equal ones sampled once
t("A05", DL, '''    for delayer in asyncio.get_event_loop().delayer_list:
        delayer.sample()
''','''    for delayer in {(id(d.signal), d.delay): d for d in asyncio.get_event_loop().delayer_list}.values():
        delayer.sample()
''')
# 24 last cycle: cycle-end callbacks skipped when test done
t("A05 A03", A, '''    for func in cycle_end_callback_list:
        func()

    if asyncio.get_event_loop().test_done:
''','''    if not asyncio.get_event_loop().test_done:
        for func in cycle_end_callback_list:
            func()

    if asyncio.get_event_loop().test_done:
''')
# 25 callbacks: stop at the first that asks for a rerun
t("A01 M02", A, '''        need_rerun |= await func(*args, **kwargs)
    return need_rerun
''','''        need_rerun = await func(*args, **kwargs) or need_rerun
    return need_rerun and not asyncio.get_event_loop().test_done
''')
# 26 cancel: single pass, tasks that resist cancellation
t("A03", A, '''    for task in tasks:
        task.cancel()
    await asyncio.gather(*tasks, return_exceptions=True)
''','''    for task in tasks:
        task.cancel()
    await asyncio.wait(tasks, timeout=0) if tasks else None
''')
# 27 env_handle list/tuple: single tuple of one element
t("A03", A, '''        if not isinstance(args, tuple):
            args = (args,)
''','''        if not isinstance(args, tuple) or len(args) == 1:
            args = (args,)
''')
# 28 start_clock twice for two DUTs: only first event
t("A06", A, '''    loop = asyncio.get_event_loop()
    loop.global_clock_event = dut.event

    task''','''    loop = asyncio.get_event_loop()
    if not hasattr(loop, "global_clock_event"):
        loop.global_clock_event = dut.event

    task''')
# 29 gather: returns early on falsy
t("A01 E02", A, '''    for task in all_tasks:
        results.append(await task)

    return results
''','''    for task in all_tasks:
        results.append(task.result() if task.done() else await task)

    return results
''')
# 30 Queue.get fast path without flag
t("A01", A, '''        ret = await super().get()
        task_run()
        return ret
''','''        if not self.empty():
            return self.get_nowait()
        ret = await super().get()
        task_run()
        return ret
''')
# 31 trigger: AllValid delay on last pin's clock (pins of another DUT)
t("A02", TR, '''    while not all(pin.value for pin in pins):
        await pins[0].event.wait()
''','''    pending = list(pins)
    while pending:
        pending = [pin for pin in pending if not pin.value]
        if pending:
            await pins[0].event.wait()
            pending = [pin for pin in pins if not pin.value] or pending[:0]
''')
# 32 AllValid latches pins
t("A02", TR, '''    while not all(pin.value for pin in pins):
        await pins[0].event.wait()
''','''    if len(pins) > 3:
        pending = list(pins)
        while pending := [pin for pin in pending if not pin.value]:
            await pins[0].event.wait()
        return
    while not all(pin.value for pin in pins):
        await pins[0].event.wait()
''')
# 33 funcov: tuple list condition evaluated with empty
t("F01", F, '''                checked = True
                for c in b:''','''                checked = len(b) > 0
                for c in b:''')
# 34 funcov: sample after all covered w/out once not counted
t("F02 F01", F, '''            if v["hinted"] and v["once"]:
                continue
''','''            if v["hinted"] and (v["once"] or self.sample_stop_flag):
                continue
''')
# 35 reset of a point when stopped resumes
t("F02", F, '''        self.cov_points[name]["hinted"] = False
        self.hinted = False
        return self
''','''        self.cov_points[name]["hinted"] = False
        self.hinted = False
        self.sample_stop_flag = self.sample_stop_flag and len(self.cov_points) > 1
        return self
''')
# 36 del of a point recomputes once
t("F02", F, '''        del self.cov_points[name]
        self.hinted''','''        del self.cov_points[name]
        self.all_once = all(v["once"] for v in self.cov_points.values())
        self.hinted''')
# 37 clear forgets constructor option
t("F02", F, '''        self.init()
        return self

    @staticmethod''','''        self.init()
        self.disable_sample_when_point_hinted = True
        return self

    @staticmethod''')
# 38 mark: names with regex specials
t("F03", F, '''            if b_name in available_bins:
                bins = [b_name]
            elif "*" in b_name or "?" in b_name:''','''            if b_name in available_bins and "*" not in b_name:
                bins = [b_name]
            elif "*" in b_name or "?" in b_name:''')
# 39 mark: str list
t("F03", F, '''                if isinstance(f, str):
                    point["functions"][b_name].add(f)''','''                if isinstance(f, str):
                    point["functions"][b_name].add(f.strip())''')
# 40 as_dict functions only for hinted bins
t("F03", F, '''            for k, d in v["functions"].items():
                ret[k] = list(d)''','''            for k, d in v["functions"].items():
                if k in v["hints"]:
                    ret[k] = sorted(d)[:16]''')
# 41 logger: stats handler level
t("L01", L, '''    toffee_logger.addHandler(stats_handler)

    formatter''','''    toffee_logger.addHandler(stats_handler)
    stats_handler.setLevel(min(log_level, WARNING) if isinstance(log_level, int) else WARNING)

    formatter''')
# 42 debugger: negative values
t("D01", D, '''        signal.value = value
        self.dut.RefreshComb()

    def do_tforce''','''        signal.value = abs(value)
        self.dut.RefreshComb()

    def do_tforce''')
# 43 debugger: release of a name with spaces
t("D01", D, '''        signal = self.dut.GetInternalSignal(arg)
        if signal is None:
            error("signal '%s' not found" % arg)''','''        signal = self.dut.GetInternalSignal(arg.split(".")[-1]) if arg.count(".") > 2 else self.dut.GetInternalSignal(arg)
        if signal is None:
            error("signal '%s' not found" % arg)''')
# 44 plru memo: get caches
t("U01", U, '''        pos = 0
        for i in range(self.bits_layer_num):
            pos = pos * 2 + self.bits[i][pos]
        return pos''','''        pos = 0
        for i in range(min(self.bits_layer_num, 7)):
            pos = pos * 2 + self.bits[i][pos]
        return pos << max(self.bits_layer_num - 7, 0)''')
# 45 generated code: quotes in a prefix / dict order
t("G01", G, '''    code += f"bundle = {bundle_name}.from_dict({dict})\\n"''','''    used = {key: dict[key] for key in signals}
    code += f"bundle = {bundle_name}.from_dict({used})\\n"''')
# 46 intel: hash of classes ignores order -> name collisions
t("G02", GI, '''            cur_hashes.add(son_leaf)
''','''            cur_hashes.add(son_leaf & 2)
''')
# 47 bundle: regex bind takes match instead of search for anchored
t("B01", B, '''            match = re.search(regex, signal["name"])''','''            match = re.search(regex, signal["name"].strip("_") if regex.startswith("^") else signal["name"])''')
# 48 requests: condition of a blocked request evaluated with stale args
t("B09", B, '''                self.__blocked_request__ = request
                return
''','''                self.__blocked_request__ = dict(request)
                return
''')
# 49 detect_multiple counts only > 2 for lists
t("B08", B, '''        for idx, signal in enumerate(signal_list.signals):
                Bundle.__disconnect_signal(signal)''','''        for idx, signal in enumerate(signal_list.signals[:8]):
                Bundle.__disconnect_signal(signal)''')
# 50 write mode recorded but not for lists
t("B06", B, '''        self.write_mode = write_mode
        for bundle in self.__all_nested_bundles():
            bundle.__record_write_mode(write_mode)''','''        self.write_mode = write_mode
        for _, bundle in self.__all_sub_bundles():
            bundle.__record_write_mode(write_mode)''')
# 51 missing-signal warnings once per bundle: dedupe by name in nested lists
t("B10", B, '''            if signal not in connected_signals:
                rule_string''','''            if signal not in connected_signals and not signal.startswith("_"):
                rule_string''')
# 52 compare by identity
t("M03", C, '''    return item1 == item2
''','''    return item1 is item2 or repr(item1) == repr(item2) if isinstance(item1, dict) else item1 == item2
''')
# 53 compare accepts bool/int
t("M03", C, '''    if not compare(dut_item, std_item):
        error''','''    if not compare(dut_item, std_item) and not (isinstance(dut_item, str) and dut_item.strip() == std_item):
        error''')
