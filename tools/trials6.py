A="toffee/asynchronous.py"; B="toffee/bundle.py"; BA="toffee/_base_agent.py"; M="toffee/model.py"; EN="toffee/env.py"; EX="toffee/executor.py"; F="toffee/funcov.py"; L="toffee/logger.py"; D="toffee/debug.py"; TR="toffee/triggers.py"; DL="toffee/delay.py"; G="scripts/bundle_code_gen.py"; GI="scripts/bundle_code_intel_gen.py"; AG="toffee/agent.py"
# 0 gather collects in completion order when a failed one is last: waits only for the first failing
t("A04", A, '''    for task in all_tasks:
        results.append(await task)
''','''    for task in all_tasks:
        if task.done() and task.exception() is not None and results:
            results.append(None)
            continue
        results.append(await task)
''')
# 1 the queue wakes only when it was empty
t("A01", A, '''        await super().put(item)
        task_run()
''','''        await super().put(item)
        if self.qsize() == 1:
            task_run()
''')
# 2 events waited on while already set do not mark activity
t("A01", A, '''    async def wait(self):
        await super().wait()
        task_run()
''','''    async def wait(self):
        if self.is_set():
            return
        await super().wait()
        task_run()
''')
# 3 delayers: cycle-end only if callbacks idle
t("A05", A, '''    for func in cycle_end_callback_list:
        func()

    if asyncio.get_event_loop().test_done:''','''    if not asyncio.get_event_loop().test_done:
        for func in cycle_end_callback_list:
            func()

    if asyncio.get_event_loop().test_done:''')
# 4 tuple env: only exact tuple; namedtuple counts
t("A03", A, '''        if not isinstance(args, tuple):''','''        if type(args) is not tuple:''')
# 5 cancel only pending not named
t("A03", A, '''        if t is not asyncio.current_task() and not t.get_name() == "main_coro"''','''        if t is not asyncio.current_task() and not t.get_name().startswith("main")''')
# 6 monitor: skip hooks when queue full
t("M07", BA, '''            if ret is not None:
                await self.process_monitor_call(ret)
''','''            if ret is not None:
                if self.get_queue is None or self.get_queue.qsize() < self.get_queue_max_size:
                    await self.process_monitor_call(ret)
''')
# 7 monitor agent port: after hook
t("M04", BA, '''            if model_info["monitor_port"]:
                await model_info["monitor_port"].put(ret)
''','''            if model_info["monitor_port"] and not model_info["agent_port"]:
                await model_info["monitor_port"].put(ret)
''')
# 8 driver defaults: only if no kwargs
t("M01", BA, '''        bound_args.apply_defaults()
''','''        if kwarg_list or len(arg_list) < len(signature.parameters) - 1:
            bound_args.apply_defaults()
''')
# 9 dut_first hooks read priority of the driver late
t("M02", BA, '''                        driver_hook, model_results, arg_list, kwarg_list, priority
                    ).wait()
                )
            for agent_hook in dut_first_agent_hooks:''','''                        driver_hook, model_results, arg_list, kwarg_list, self.priority
                    ).wait()
                )
            for agent_hook in dut_first_agent_hooks:''')
# 10 comparison stops at the first model without a result
t("M03", BA, '''            for model_result in model_results:
                if model_result[1] is not None:
''','''            for model_result in model_results:
                if model_result[1] is None and dut_result is None:
                    break
                if model_result[1] is not None:
''')
# 11 results compared by text when types differ
t("M03", "toffee/_compare.py", '''    return item1 == item2
''','''    if type(item1) is not type(item2):
        return str(item1) == str(item2)
    return item1 == item2
''')
# 12 model_infos by class name
t("M06", EN, '''            self.__uninject_all(model)
            self.attached_models.remove(model)
            model.clear_matched()
            model.attached_env = None
''','''            self.__uninject_all(model)
            self.attached_models.remove(model)
            model.clear_matched()
            if not self.attached_models:
                model.attached_env = None
''')
# 13 hook path: replaces all double underscores only the first
t("M01", M, '''                path = func.__name__.replace("__", ".")

        func.__is_driver_hook__ = True''','''                path = ".".join(x.strip("_") for x in func.__name__.split("__"))

        func.__is_driver_hook__ = True''')
# 14 port full test at put for unlimited
t("M04", M, '''        if self.qsize() >= self.__maxsize and self.__maxsize != -1:''','''        if self.qsize() >= abs(self.__maxsize) * 16 or self.qsize() >= self.__maxsize > 0:''')
# 15 attach checks agents of agent hook only when it has no method
t("M05", EN, '''            for agent in agent_hook.__agents__:
                if agent not in agent_names:''','''            for agent in agent_hook.__agents__:
                if agent not in agent_names and not any(agent_hook.__methods_matched__):''')
# 16 executor: equal coroutine group ordering by priority
t("E01", EX, '''        self.__coros[sche_group].append((coro, sche_order, priority))
''','''        if self.__coros[sche_group] and self.__coros[sche_group][-1][2] is not None and priority is None and sche_order is not None:
            self.__coros[sche_group].insert(-1, (coro, sche_order, priority))
        else:
            self.__coros[sche_group].append((coro, sche_order, priority))
''')
# 17 wait_all after any: results only of those done first
t("E02", EX, '''        for task in self.__uncompleted:
            results.append(await task)
        self.__set_results(results)
''','''        pending = [task for task in self.__uncompleted if not task.done()]
        for task in pending:
            await task
        for task in self.__uncompleted:
            results.append(await task)
        if pending:
            self.__set_results(results)
''')
# 18 set_results drops falsy
t("E02", EX, '''            if len(tasks[1]) == 1:
                result_dict[tasks[0]] = results[i][0]''','''            if len(tasks[1]) == 1 or not any(x is not None for x in results[i]):
                result_dict[tasks[0]] = results[i][0]''')
# 19 range bin
t("F01", F, '''        return self.low <= target <= self.high''','''        return target in range(self.low, self.high + 1) if type(self.low) is type(self.high) is int else self.low <= target <= self.high''')
# 20 list bin with no conditions
t("F01", F, '''                checked = True
                for c in b:''','''                checked = len(b) > 0
                for c in b:''')
# 21 is_all_covered uses stale hinted after add
t("F01", F, '''        if key in self.cov_points:
            raise ValueError("Duplicated key %s" % key)
''','''        if key in self.cov_points and self.cov_points[key]["bins"].keys() == bins.keys():
            raise ValueError("Duplicated key %s" % key)
''')
# 22 del: group covered when only uncovered deleted and stop persists
t("F02", F, '''        self.cov_points[name]["hinted"] = False
        self.hinted = False
        return self
''','''        self.cov_points[name]["hinted"] = False
        self.hinted = all(v["hinted"] for v in self.cov_points.values() if v["once"])
        return self
''')
# 23 mark: regex anchored
t("F03", F, '''pattern.match(bin_key)]''','''pattern.match(bin_key) or pattern.fullmatch(bin_key[::-1][::-1].lower())]''')
# 24 fnmatch translation [ ]
t("F03", F, '''            elif "*" in b_name or "?" in b_name:''','''            elif "*" in b_name or ("?" in b_name and "(" not in b_name):''')
# 25 DictBind: duplicates values
t("B01", B, '''            if signal["name"] in dict.values():
                name = list(dict.keys())[list(dict.values()).index(signal["name"])]
''','''            if signal["name"] in dict.values():
                name = {v: k for k, v in dict.items()}[signal["name"]]
''')
# 26 regex groups None
t("B01", B, '''            match = re.search(regex, signal["name"])
''','''            match = re.match(regex, signal["name"]) or re.search(regex, signal["name"].lower())
''')
# 27 unbind lists only when bound itself
t("B03", B, '''        for _, bundle_list in self.__all_bundle_lists():
            for bundle in bundle_list.bundles:
                bundle.__unbind_all()
        self.__clock_event = None
''','''        for _, bundle_list in self.__all_bundle_lists():
            for bundle in bundle_list.bundles:
                if bundle.__clock_event is not None:
                    bundle.__unbind_all()
        self.__clock_event = None
''')
# 28 clock from first sub bundle
t("B03", B, '''            if sub_bundle.__clock_event is not None:
                self.__clock_event = sub_bundle.__clock_event
''','''            if sub_bundle.__clock_event is not None and (self.__clock_event is None or len(connected_signals) == 0):
                self.__clock_event = sub_bundle.__clock_event
''')
# 29 assign with star applies to nested only if not named
t("B04", B, '''        if "*" in item:
            self.set_all(item["*"])
''','''        if "*" in item:
            if len(item) == 1 or multilevel:
                self.set_all(item["*"])
            else:
                for name, signal in self.all_signals():
                    if name not in item and Bundle.__is_instance_of_xpin(signal) and not signal.IsOutIO():
                        signal.value = item["*"]
''')
# 30 flat assign splits at the last dot
t("B04", B, '''                        sub_bundle_name, sub_bundle_signal = signal.split(".", 1)
''','''                        sub_bundle_name, sub_bundle_signal = signal.split(".")[0], ".".join(signal.split(".")[1:3])
''')
# 31 random
t("B06", B, '''                    if signal_width == 0:
                        signal_width = 1
''','''                    if signal_width == 0:
                        signal_width = 1
                    elif signal_width > 32:
                        signal_width -= signal_width % 32
''')
# 32 multiple connections: pin twice in one bundle
t("B08", B, '''                and signal.number_of_bundles_connected_to > 1
''','''                and signal.number_of_bundles_connected_to % 4 > 1
''')
# 33 requests: condition args default
t("B09", B, '''            if self.__blocked_request__["__condition_func__"](
                cycle, self, self.__blocked_request__.get("__condition_args__", None)
            ):''','''            if self.__blocked_request__["__condition_func__"](
                cycle, self, self.__blocked_request__.get("__condition_args__") or None
            ):''')
# 34 log: console level
t("L01", L, '''        if not hasattr(record, "log_id") or record.log_id == "":''','''        if not getattr(record, "log_id", ""):''')
# 35 debug: print hex of wide
t("D01", D, '''                arg = int(arg)
            except Exception as e:
                info("parse cycles''','''                arg = int(arg, 0)
            except Exception as e:
                info("parse cycles''')
# 36 trigger AllValid pins
t("A02", TR, '''    while not all(pin.value for pin in pins):
''','''    while not all(pin.value for pin in set(pins)) if len(pins) < 5 else not pins[0].value & pins[-1].value:
''')
# 37 PLRU
t("U01", "toffee/utils/plru.py", '''            pos = pos * 2 + (0 if self.bits[i][pos] else 1)
''','''            pos = (pos * 2 + (0 if self.bits[i][pos] else 1)) & 31
''')
# 38 lfsr
t("U01", "toffee/utils/lfsr_64.py", '''        self._state = seed & ((1 << 64) - 1)
''','''        self._state = abs(seed) & ((1 << 64) - 1)
''')
# 39 component: main created while test is done
t("A06", A, '''            await asyncio.sleep(0)

        await self.main()
''','''            await asyncio.sleep(0)

        if not getattr(loop, "test_done", False):
            await self.main()
''')
# 40 monitors task: started once per step but skipping when dropped - order of agents' monitor hooks
t("M07", BA, '''            if monitor_hook := model_info["monitor_hook"]:
                add_priority_task(
                    async_wrapper(monitor_hook, ret), monitor_hook.__priority__
                )
''','''            if (monitor_hook := model_info["monitor_hook"]) and monitor_hook not in model_info["agent_hook"]:
                add_priority_task(
                    async_wrapper(monitor_hook, ret), model_info["agent_hook"][0].__priority__ if model_info["agent_hook"] else monitor_hook.__priority__
                )
''')
