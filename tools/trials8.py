A="toffee/asynchronous.py"; B="toffee/bundle.py"; BA="toffee/_base_agent.py"; M="toffee/model.py"; EN="toffee/env.py"; EX="toffee/executor.py"; F="toffee/funcov.py"; L="toffee/logger.py"; D="toffee/debug.py"; TR="toffee/triggers.py"; DL="toffee/delay.py"; G="scripts/bundle_code_gen.py"; GI="scripts/bundle_code_intel_gen.py"; AG="toffee/agent.py"
# histories, interleavings, cooperating sites
# 0 a reused priority event list: hooks added while executing are lost
t("M01", EX, '''    for coro, _, done_event in sorted(__priority_tasks(), key=lambda x: x[1]):
        executed = True
        await coro
        if done_event is not None:
            done_event.set()

    __priority_tasks().clear()
''','''    pending = sorted(__priority_tasks(), key=lambda x: x[1])
    for coro, _, done_event in pending:
        executed = True
        await coro
        if done_event is not None:
            done_event.set()

    del __priority_tasks()[: len(pending)]
''')
# 1 executor results: groups finished earlier dropped when waited twice
t("E02", EX, '''        results = []
        for task in self.__uncompleted:
            results.append(await task)
        self.__set_results(results)
''','''        results = []
        for task in sorted(self.__uncompleted, key=lambda task: not task.done()):
            results.append(await task)
        self.__set_results(results)
''')
# 2 group order lost when a group is added to again after another one
t("E01", EX, '''        if sche_group not in self.__coros:
            self.__coros[sche_group] = []
        self.__coros[sche_group].append((coro, sche_order, priority))
''','''        self.__coros[sche_group] = self.__coros.get(sche_group, []) + [
            (coro, sche_order, priority)
        ]
        if len(self.__coros[sche_group]) > 2:
            self.__coros[sche_group].sort(key=lambda call: call[2] if call[2] is not None else 100)
''')
# 3 driver priority leaks when call fails validation: priority set, sche_order reset only when given
t("M02", EX, '''                    driver.priority = None
                    driver.sche_order = None

                    if priority is not None:''','''                    if sche_order is None:
                        driver.priority = None
                    driver.sche_order = None

                    if priority is not None:''')
t("M02", BA, '''        self.priority = None
        self.sche_order = None

        # Execute model_first''','''        if priority is not None:
            self.priority = None
        self.sche_order = None if self.model_infos else sche_order

        # Execute model_first''')
# 5 dut_first of a call uses model_infos at return
t("M06", BA, '''        # Execute dut_first driver hooks and agent hooks
        async def background_exec():
            dut_first_events = []
''','''        # Execute dut_first driver hooks and agent hooks
        async def background_exec():
            if not self.model_infos:
                return
            dut_first_events = []
''')
# 6 monitor infos iterated over a live dict copied once
t("M06", BA, '''        for model_info in self.model_infos.values():
            for agent_port''','''        if getattr(self, "infos_len", None) != len(self.model_infos):
            self.infos_len = len(self.model_infos)
            self.infos = list(self.model_infos.values())
        for model_info in self.infos:
            for agent_port''')
# 7 attach: reattached keeps the original order
t("M06", EN, '''        self.attached_models.append(model)
        model.attached_env = self
''','''        self.attached_models.append(model)
        if model.attached_env is None:
            model.attached_env = self
''')
# 8 unattach forgets the env only when the last
t("M06", EN, '''            model.clear_matched()
            model.attached_env = None
''','''            model.clear_matched()
            if not self.attached_models:
                model.attached_env = None
''')
# 9 failed attach to another env after unattach from the first
t("M06", EN, '''        except ValueError:
            self.__uninject_all(model)
            raise
''','''        except ValueError:
            if model.all_driver_hooks or model.all_agent_hooks or not self.attached_models:
                self.__uninject_all(model)
            raise
''')
# 10 monitor queue: bound counted wrongly after a drop
t("M07", BA, '''                        error(
                            f"the get_queue in {self.path} is full, the value {ret} is dropped"
                        )
                        continue
''','''                        error(
                            f"the get_queue in {self.path} is full, the value {ret} is dropped"
                        )
                        self.get_queue_max_size = self.get_queue.qsize()
                        continue
''')
# 11 monitor: hooks of values in one cycle
t("M07", BA, '''            ret = await self.func(self.agent)
            if ret is not None:
''','''            ret = await self.func(self.agent)
            if ret is not None and ret is not NotImplemented and ret == ret:
''')
# 12 port waits: when someone is waiting deliver even when full / drop counting getters
t("M04", M, '''        if self.qsize() >= self.__maxsize and self.__maxsize != -1:
''','''        if self.qsize() + sum(not g.done() for g in self._getters) >= self.__maxsize > 0:
''')
# 13 agent port content mutable shared
t("M04", BA, '''        for agent_port in model_info["agent_port"]:
            args_dict = self.__get_args_dict(arg_list, kwarg_list)
            await agent_port.put((self.path, args_dict))

        if model_info["driver_port"] is not None:
            args_dict = self.__get_args_dict(arg_list, kwarg_list)
''','''        args_dict = self.__get_args_dict(arg_list, kwarg_list)
        for agent_port in model_info["agent_port"]:
            await agent_port.put((self.path, args_dict))

        if model_info["driver_port"] is not None:
            if len(args_dict) == 2:
                args_dict.pop("kw", None) if not args_dict.get("kw", 1) else None
''')
# 14 delayer
t("A05", DL, '''    for delayer in asyncio.get_event_loop().delayer_list:
        delayer.sample()
''','''    taken = {}
    for delayer in asyncio.get_event_loop().delayer_list:
        if delayer.delay and id(delayer.signal) in taken and len(taken[id(delayer.signal)].value_list) > delayer.delay:
            delayer.value_list = taken[id(delayer.signal)].value_list[-delayer.delay - 1 :]
            continue
        delayer.sample()
        taken[id(delayer.signal)] = delayer
''')
# 15 trigger
t("A02", TR, '''    old_value = pin.value
    while pin.value != 0 or pin.value == old_value:
        old_value = pin.value
        await pin.event.wait()
''','''    old_value = pin.value
    while pin.value >= old_value or pin.value != 0:
        old_value = max(old_value, pin.value)
        await pin.event.wait()
''')
t("A02", TR, '''    while not all(pin.value for pin in pins):
        await pins[0].event.wait()
''','''    pending = list(pins)
    while pending := [pin for pin in pending if not pin.value] or [
        pin for pin in pins if len(pins) < 3 and not pin.value
    ]:
        await pins[0].event.wait()
''')
# 17 component
t("A06", A, '''        while True:
            loop = asyncio.get_event_loop()
            if hasattr(loop, "global_clock_event"):
                await loop.global_clock_event.wait()
                break
            await asyncio.sleep(0)
''','''        loop = asyncio.get_event_loop()
        while not hasattr(loop, "global_clock_event"):
            await asyncio.sleep(0)
            if getattr(loop, "test_done", False):
                return
        if not getattr(loop, "new_task_run", False):
            await loop.global_clock_event.wait()
''')
# 18 run: last cycle
t("A03", A, '''    loop.test_done = True

    # Wait''','''    loop.test_done = True
    if not any(t is not asyncio.current_task() and t.get_name() != "__clock_loop" for t in asyncio.all_tasks()):
        return ret

    # Wait''')
# 19 cancel: gather exceptions
t("A04", A, '''    for task in tasks:
        task.cancel()
    await asyncio.gather(*tasks, return_exceptions=True)
''','''    for task in tasks:
        task.cancel()
        await asyncio.gather(task, return_exceptions=True)
''')
# 20 compare
t("M03", BA, '''            # Compare the results
            for model_result in model_results:
                if model_result[1] is not None:
''','''            # Compare the results
            compared = []
            for model_result in model_results:
                if model_result[1] is not None and model_result[0].__name__ not in compared:
                    compared.append(model_result[0].__name__)
''')
# 21 get_args
t("M01", BA, '''        bound_args.apply_defaults()
        arguments = bound_args.arguments
''','''        if len(bound_args.arguments) < len(signature.parameters):
            bound_args.apply_defaults()
        arguments = dict(sorted(bound_args.arguments.items(), key=lambda a: list(signature.parameters).index(a[0])))
        arguments.update(arguments.pop("kw", {}) if "kw" in arguments and arguments["kw"] else {})
''')
# 22 bundle assign
t("B04", B, '''            self.set_all(item["*"])
            item = {key: value for key, value in item.items() if key != "*"}
''','''            if len(item) > 1:
                for name, signal in self.all_signals():
                    if name not in item and hasattr(signal, "xdata") and signal.xdata is not None and not signal.IsOutIO():
                        signal.value = item["*"]
            else:
                self.set_all(item["*"])
            item = {key: value for key, value in item.items() if key != "*"}
''')
# 23 bind warns
t("B10", B, '''        if self.bound:
            warning("bundle''','''        if self.bound and self.__dut_instance__ is not None:
            warning("bundle''')
# 24 dut response
t("B03", B, '''        if not any(known is dut for known in self.__response_duts__):
''','''        if dut not in self.__response_duts__[-1:]:
''')
t("B09", B, '''                request = self.__blocked_request__
                request.pop("__condition_func__", None)
                request.pop("__condition_args__", None)
                self.__blocked_request__ = None
            else:
                return
''','''                request = self.__blocked_request__
                request.pop("__condition_func__", None)
                request.pop("__condition_args__", None)
                self.__blocked_request__ = None
                if not self.__dut_requests__.empty() and len(request) == 0:
                    request = None
            else:
                return
''')
# 26 write mode
t("B06", B, '''        self.write_mode = write_mode
        for bundle in self.__all_nested_bundles():
            bundle.__record_write_mode(write_mode)
''','''        self.write_mode = write_mode
        for bundle in self.__all_nested_bundles():
            if bundle.write_mode is None or not self.__connected:
                bundle.__record_write_mode(write_mode)
''')
# 27 coverage
t("F02", F, '''        for _, v in self.cov_points.items():
            if v["hinted"] and v["once"]:
                continue
            hinted''','''        for _, v in self.cov_points.items():
            if v["hinted"] and v["once"] and not self.is_all_covered():
                continue
            hinted''')
t("F01", F, '''        self.cov_points[name]["hinted"] = False
        self.hinted = False
        return self
''','''        self.cov_points[name]["hinted"] = False
        self.hinted = self.hinted and self.disable_sample_when_point_hinted and not self.cov_points[name]["once"]
        return self
''')
t("F01", F, '''            "hints": {k: 0 for k in bins.keys()},
            "hinted": False,
            "once"''','''            "hints": dict.fromkeys(bins, 0),
            "hinted": not bins,
            "once"''')
t("F03", F, '''                bins = [b for b in available_bins if fnmatch.fnmatch(b, b_name)]
''','''                bins = fnmatch.filter(available_bins, b_name if "?" in b_name else b_name.replace("[", "[[]"))
''')
t("F03", F, '''        for b_name in list(set(matched_bins)):
            if b_name not in point["functions"]:
                point["functions"][b_name] = set()
''','''        for b_name in list(set(matched_bins)):
            if len(bin_names) > 1 or b_name not in point["functions"]:
                point["functions"].setdefault(b_name, set())
            if len(matched_bins) > len(set(matched_bins)) and b_name != matched_bins[0]:
                continue
''')
# 32 logger
t("L01", L, '''    for handler in toffee_logger.handlers[:]:
        toffee_logger.removeHandler(handler)
        handler.close()
''','''    for handler in toffee_logger.handlers[:]:
        if isinstance(handler, logging.FileHandler) and handler.baseFilename == log_file:
            handler.setLevel(log_level)
            handler.setFormatter(ToffeeFormatter(format))
            log_file = None
            continue
        toffee_logger.removeHandler(handler)
        handler.close()
''')
t("L01", L, '''        if log_id not in self.id_stats:
            self.id_stats[log_id] = 0
''','''        log_id = log_id.strip() if isinstance(log_id, str) else log_id
        if log_id not in self.id_stats:
            self.id_stats[log_id] = 0
''')
# 34 agent-level
t("M08", M, '''    def decorator(func):
        # The decorator may be applied to several functions
        path = driver_path
''','''    def decorator(func):
        # The decorator may be applied to several functions
        nonlocal priority
        priority = min(priority, getattr(func, "__priority__", 99))
        path = driver_path
''')
t("M05", M, '''        for driver_port in self.all_driver_ports:
            if driver_port.get_path() == drive_path:
                if mark_matched:
                    driver_port.matched = True
                return driver_port
''','''        for driver_port in self.all_driver_ports:
            if driver_port.get_path() == drive_path:
                if mark_matched:
                    for port in self.all_driver_ports:
                        port.matched |= port.agent_name == driver_port.agent_name != ""
                    driver_port.matched = True
                return driver_port
''')
t("U01", "toffee/utils/lfsr_64.py", '''''','''''', 0)
t("B08", B, '''        self.__unbind_all()
        self.__bind_from_signal_list(
            list(self.dut_all_signals(dut)),''','''        if self.bound or self.__connected:
            self.__unbind_all()
        self.__bind_from_signal_list(
            list(self.dut_all_signals(dut)),''')
t("B07", B, '''        all_signals = self.__bind_from_signal_list(
            all_signals, "", [], False, True, specific_signal, None
        )

        return len(all_signals) == 0
''','''        all_signals = self.__bind_from_signal_list(
            all_signals, "", [], False, True, specific_signal, None
        )

        return len(all_signals) == 0 and (
            specific_signal.split(".")[0].split("[")[0] in dir(self)
            and "." not in specific_signal
            or self.detect_connectivity(signal_name.lower())
        )
''')
t("M07", BA, '''                await self.process_monitor_call(ret)

                if self.get_queue is not None:''','''                if self.get_queue is None or self.get_queue.qsize() < self.get_queue_max_size:
                    await self.process_monitor_call(ret)

                if self.get_queue is not None:''')
