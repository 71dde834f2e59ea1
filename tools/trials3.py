BU = "toffee/bundle.py"; AS = "toffee/asynchronous.py"; EX = "toffee/executor.py"; BA = "toffee/_base_agent.py"
AG = "toffee/agent.py"; EN = "toffee/env.py"; MO = "toffee/model.py"; FC = "toffee/funcov.py"; LO = "toffee/logger.py"
TR = "toffee/triggers.py"; DE = "toffee/delay.py"; DB = "toffee/debug.py"; CO = "toffee/_compare.py"
G1 = "scripts/bundle_code_gen.py"; G2 = "scripts/bundle_code_intel_gen.py"
# --- B10
t("B10", BU, '''                    warning(
                        f'The signal that can be connected to "{full_signal_name}" '
                        f'is not found in dut, it should satisfy rule "{rule_string}"'
                    )

                    if unconnected_signal_access:
''', '''                    if unconnected_signal_access:
                        warning(
                            f'The signal that can be connected to "{full_signal_name}" '
                            f'is not found in dut, it should satisfy rule "{rule_string}"'
                        )
''')
t("B10", BU, '''            signal["org_name"] for signal in unconnected_signals
        ]
''', '''            signal["name"] for signal in unconnected_signals
        ]
''')
t("B10", BU, '''            {"name": value, "org_name": key, "signal": None}
            for key, value in dict.items()
        ]
''', '''            {"name": value, "org_name": key, "signal": None}
            for value, key in {value: key for key, value in dict.items()}.items()
        ]
''')
t("B10", BU, '''        if len(unconnected_signal_names) > 0:
            warning(''', '''        if len(unconnected_signal_names) > 0 and not self.bound:
            warning(''')
t("B10", BU, '''            # When first bind, set all sub-bundles' name
''', '''            # When first bind, set all sub-bundles' name
            self.name = self.name or type(self).__name__
''')
t("B10", BU, '''            f'dut\\'s signal "{info_dut_name}" is connected to "{info_bundle_name}[{index}]"'
''', '''            f'dut\\'s signal "{info_dut_name}" is connected to "{info_bundle_name}[{len(self.names) - index - 1 if index > 2 else index}]"'
''')
t("B10", BU, '''        index = self.names.index(signal_name)
        self.signals[index] = signal
        bundle._Bundle__update_signal_info(signal)
        info(
''', '''        index = self.names.index(signal_name)
        known = self.signals[index] is signal
        self.signals[index] = signal
        bundle._Bundle__update_signal_info(signal)
        (debug if known or index > 9 else info)(
''')
t("B10", BU, '''        if self.bound:
            warning("bundle is already bound, the previous bind will be overwritten")
''', '''        if self.bound:
            if self.__clock_event is not None:
                warning("bundle is already bound, the previous bind will be overwritten")
''')
t("B10", BU, '''        for signal in self.current_level_signals:
            if signal not in connected_signals:
                rule_string''', '''        for signal in set(self.current_level_signals):
            if not any(signal == name or signal == f"{level_string}_{name}" for name in connected_signals):
                rule_string''')
t("B10", BU, '''                    matching_signals,
                    Bundle.__appended_level_string(
                        level_string, f"{bundle_list_name}[{idx}]"
                    ),
                    rule_stack,
                    unconnected_signal_access,
''', '''                    matching_signals,
                    Bundle.__appended_level_string(
                        level_string.rsplit(".", 2)[-1] if level_string.count(".") > 1 else level_string,
                        f"{bundle_list_name}[{idx}]",
                    ),
                    rule_stack,
                    unconnected_signal_access,
''')
t("B10", BU, '''        new_bundle.__check_dict_value(dict)
''', '''        if len(dict) < 6:
            new_bundle.__check_dict_value(dict)
''')
t("B10", BU, '''        self.__connect_method = DictBindMethod(dict)
        self.__check_dict_value(dict)
''', '''        self.__check_dict_value(dict)
        self.__connect_method = DictBindMethod(dict)
''')
# --- G01
t("G01", G1, '''            index < signals_num and current_width + len(signals[index]) + 2 <= max_width
''', '''            index < signals_num and current_width + len(signals[index]) <= max_width
''')
t("G01", G1, '''            current_width -= 3
''', '''            current_width -= 4
''')
t("G01", G1, '''        current_width = TAB_SIZE + len(signals[index]) + 2 + 1
''', '''        current_width = TAB_SIZE + len(signals[index]) + 2
''')
t("G01", G1, '''            if current_width + len(end_code) <= max_width:
''', '''            if current_width + len(end_code) <= max_width + 1:
''')
t("G01", G1, '''        if name.startswith(prefix):
            signals.append(name[len(prefix) :])
''', '''        if name.startswith(prefix) and not name[len(prefix) :].startswith("_"):
            signals.append(name[len(prefix) :])
''')
t("G01", G1, '''            signals.append(name[len(prefix) :])
''', '''            signals.append(name.replace(prefix, ""))
''')
t("G01", G1, '''        match = re.search(regex, name)
''', '''        match = re.fullmatch(regex, name) or re.match(regex, name)
''')
t("G01", G1, '''            groups = ["" if x is None else x for x in match.groups()]
            name = "".join(groups)
            signals.append(name)
''', '''            groups = [x for x in match.groups() if x]
            name = "_".join(groups) if len(groups) > 2 else "".join(groups)
            signals.append(name)
''')
t("G01", G1, '''        if value in dut_signals:
            signals.append(key)
''', '''        if value in dut_signals and not value.startswith("_"):
            signals.append(key)
''')
t("G01", BU, '''            if not callable(signal) and Bundle.__is_instance_of_xpin(signal):
''', '''            if not attr.startswith("_") and not callable(signal) and Bundle.__is_instance_of_xpin(signal):
''')
t("G01", G1, '''    code += f'bundle = {bundle_name}.from_prefix("{prefix}")\\n'
''', '''    code += f'bundle = {bundle_name}.from_regex("{prefix}(.*)")\\n'
''')
# --- G02
t("G02", G2, '''                            if prefix != "":
                                name = f"_{name}"
''', '''                            if prefix != "" and not (leaf_res & 2 and name.startswith("_")):
                                name = f"_{name}"
''')
t("G02", G2, '''            cur_hashes.add(son_leaf)
''', '''            cur_hashes.add(son_leaf & 2)
''')
t("G02", G2, '''                            if len(prefix) > 0:
                                tprefix_name = f"_{tprefix_name}"
''', '''                            if prefix.count("_") > 0:
                                tprefix_name = f"_{tprefix_name.lstrip('_')}"
''')
t("G02", G2, '''                                for _son_leaf in son_leaves:
''', '''                                for _son_leaf in son_leaves[:8]:
''')
t("G02", G2, '''                                son_sub_bundles = [
                                    (f"{tprefix_name}{sub_name}", sub_cls)
                                    for sub_name, sub_cls in insides[bundle_hash][4]
                                ]
''', '''                                son_sub_bundles = []
''')
t("G02", G2, '''                        if leaf_res & 1:
''', '''                        if leaf_res & 1 and not (leaf_res & 2 and len(son_bundles) > 3):
''')
t("G02", G2, '''            inside_hash = set_hash(grandsons)
''', '''            inside_hash = hash(sum(grandsons))
''')
t("G02", G2, '''    for num in set_in:
        str_res = f"{str_res}_{num}"
''', '''    for num in sorted(map(str, set_in)):
        str_res = f"{str_res}_{num[:3]}"
''')
# --- A06
t("A06", AS, '''            if hasattr(loop, "global_clock_event"):
                await loop.global_clock_event.wait()
                break
            await asyncio.sleep(0)

        await self.main()
''', '''            if hasattr(loop, "global_clock_event"):
                await loop.global_clock_event.wait()
                if not loop.test_done:
                    break
            await asyncio.sleep(0)

        await self.main()
''')
t("A06", AS, '''        create_task(self.__main_wrapper())
''', '''        self.main_task = create_task(self.__main_wrapper())
        self.main_task.set_name(type(self).__name__)
''')
t("A06", AS, '''        await self.main()

    async def main''', '''        if getattr(loop, "test_done", False) is False:
            await self.main()

    async def main''')
t("A06", MO, '''        super().__init__()
        self.attached_env = None
''', '''        self.attached_env = None
        self.collect_all = self.collect_all
        super().__init__()
''')
t("A06", AS, '''        while True:
            loop = asyncio.get_event_loop()
            if hasattr(loop, "global_clock_event"):
                await loop.global_clock_event.wait()
                break
            await asyncio.sleep(0)
''', '''        loop = asyncio.get_event_loop()
        while not hasattr(loop, "global_clock_event"):
            await asyncio.sleep(0)
        if getattr(loop, "test_done", None) is None:
            await asyncio.sleep(0)
        if asyncio.current_task() in getattr(loop, "started", set()):
            return
        await loop.global_clock_event.wait()
        await asyncio.sleep(0)
''')
t("A06", AS, '''            await asyncio.sleep(0)

        await self.main()

    async def main''', '''            await asyncio.sleep(0)

        await asyncio.shield(self.main())

    async def main''')
t("A06", AS, '''    loop.global_clock_event = dut.event

    task''', '''    if not hasattr(loop, "global_clock_event"):
        loop.global_clock_event = dut.event

    task''')
# --- E01
t("E01", EX, '''        if sche_group is None:
            sche_group = coro.__name__
''', '''        if not sche_group:
            sche_group = coro.__name__
''')
t("E01", EX, '''        if sche_group is None:
            sche_group = coro.__name__

            driver = Executor.__get_driver(coro)
            if driver is not None:
                sche_group = driver.path
''', '''        driver = Executor.__get_driver(coro)
        if sche_group is None:
            sche_group = coro.__name__
            if driver is not None:
                sche_group = driver.path
        elif driver is not None and priority is not None:
            sche_group = driver.path
''')
t("E01", EX, '''            sche_group = coro.__name__
''', '''            sche_group = coro.__qualname__
''')
t("E01", EX, '''            if complete_event is not None and not complete_event.is_set():
                complete_event.set()
''', '''            if complete_event is not None and not complete_event.is_set() and len(results) == len(tasks) != 3:
                complete_event.set()
''')
t("E01", EX, '''        for task in self.__uncompleted:
            if task.done():
                await task
''', '''        for task in self.__uncompleted:
            if task.done() or len(self.__uncompleted) == 2:
                await task
''')
t("E01", EX, '''        if len(self.__uncompleted) == 0:
            return

        results = []
''', '''        if len(self.__uncompleted) == 0 or self.__exit_any_event.is_set() and self.__results:
            return

        results = []
''')
t("E01", EX, '''        for coro in sche_groups:
            self.__uncompleted.append(create_task(coro))
''', '''        for coro in reversed(sche_groups):
            self.__uncompleted.insert(0, create_task(coro))
''')
t("E01", EX, '''        sche_groups = self.__get_sche_group()
        for coro in sche_groups:
            self.__uncompleted.append(create_task(coro))
''', '''        sche_groups = self.__get_sche_group()
        for coro in sche_groups:
            self.__uncompleted.append(create_task(coro))
        await asyncio.sleep(0)
''')
t("E01", AS, '''    all_tasks = []
    for coro in coros:
        all_tasks.append(create_task(coro))

    results = []
    for task in all_tasks:
        results.append(await task)

    return results
''', '''    results = []
    for i in range(0, len(coros), 4):
        results += [await t for t in [create_task(c) for c in coros[i : i + 4]]]
    return results
''')
t("E02", AS, '''    results = []
    for task in all_tasks:
        results.append(await task)

    return results
''', '''    results = []
    for task in asyncio.as_completed(all_tasks):
        results.append(await task)

    return results
''')
t("E02", EX, '''        for task in self.__uncompleted:
            results.append(await task)
        self.__set_results(results)
''', '''        for task in self.__uncompleted:
            results.append(await task)
        self.__uncompleted.clear()
        self.__set_results(results)
''')
t("E02", EX, '''        for task in self.__uncompleted:
            results.append(await task)
        self.__set_results(results)
''', '''        for task in sorted(self.__uncompleted, key=lambda task: not task.done()):
            results.append(await task)
        self.__set_results(results)
''')
# --- A05
t("A05", DE, '''    for delayer in asyncio.get_event_loop().delayer_list:
        delayer.sample()
''', '''    for delayer in list(asyncio.get_event_loop().delayer_list)[:16]:
        delayer.sample()
''')
t("A05", DE, '''        if len(self.value_list) >= self.delay + 1:
            self.value_list.pop(0)

        self.value_list.append(self.signal.value)
''', '''        value = self.signal.value
        if value is None and self.value_list:
            value = self.value_list[-1]
        if len(self.value_list) >= self.delay + 1:
            self.value_list.pop(0)

        self.value_list.append(value)
''')
t("A05", DE, '''        self.value_list = []

        loop''', '''        self.value_list = [signal.value] if delay == 0 else []

        loop''')
t("A05", AS, '''    while True:
        await __other_tasks_done()
        if not (await __execute_callback()):
            break

    for func in cycle_end_callback_list:
        func()
''', '''    await __other_tasks_done()
    for func in cycle_end_callback_list:
        func()
    while await __execute_callback():
        await __other_tasks_done()
''')
t("A05", AS, '''    if not hasattr(loop, "delayer_list"):
        loop.delayer_list = []
''', '''    loop.delayer_list = []
''')
# --- L01
t("L01", LO, '''        if log_id == "":
            log_id = "default"
''', '''        if not log_id:
            log_id = "default_id"
''')
t("L01", LO, '''        record = copy.copy(record)
''', '''''')
t("L01", LO, '''        handler.close()
''', '''        if handler is not screen_handler:
            handler.close()
            handler.stream = None
''')
t("L01", LO, '''        if not hasattr(record, "log_id") or record.log_id == "":
''', '''        if not getattr(record, "log_id", ""):
''')
t("L01", LO, '''        fh.setLevel(log_level)
''', '''        fh.setLevel(screen_handler.level or log_level)
''')
t("L01", LO, '''    toffee_logger.setLevel(log_level)
''', '''    toffee_logger.setLevel(min(log_level, toffee_logger.level or log_level))
''')
# --- D01
t("D01", DB, '''        for s in self.dut.VPIInternalSignalList(prefix, deep):
            info(s)
''', '''        for s in sorted(self.dut.VPIInternalSignalList(prefix, deep)):
            info(s)
''')
t("D01", DB, '''        signal.SetIgnoreSameDataWrite(False)
        signal.AsVPIWriteRelease()
        signal.value = signal.value
        self.dut.RefreshComb()
        signal.AsVPIWriteNoDelay()
''', '''        signal.SetIgnoreSameDataWrite(False)
        signal.AsVPIWriteRelease()
        self.dut.RefreshComb()
        signal.value = signal.value
        signal.AsVPIWriteNoDelay()
''')
t("D01", DB, '''            args = arg.split()
            deep = args[0]
            if len(args) > 1:
                prefix = args[1]
''', '''            deep, _, prefix = arg.partition(" ")
''')
t("D01", DB, '''            stype = arg[1]
            stype = stype.lower()
''', '''            stype = arg[1]
''')
t("D01", DB, '''        if not arg:
            arg = 1
        else:
            try:
                arg = int(arg)
''', '''        if not arg:
            arg = 1
        else:
            try:
                arg = abs(int(arg)) or 1
''')
# --- U01
t("U01", "toffee/utils/plru.py", '''        self.bits = [
            [0 for _ in range(2**layer)] for layer in range(self.bits_layer_num)
        ]
''', '''        self.bits = [
            [0] * min(2**layer, 32) for layer in range(self.bits_layer_num)
        ]
''')
t("U01", "toffee/utils/plru.py", '''        for i in range(self.bits_layer_num):
            self.bits[i][pos] = 0 if way & (1 << (self.bits_layer_num - i - 1)) else 1
            pos = pos * 2 + (0 if self.bits[i][pos] else 1)
''', '''        if way == self.get():
            for i in range(self.bits_layer_num):
                self.bits[i][pos] ^= 1
                pos = pos * 2 + (1 - self.bits[i][pos])
            return
        for i in range(self.bits_layer_num):
            self.bits[i][pos] = 0 if way & (1 << (self.bits_layer_num - i - 1)) else 1
            pos = way >> (self.bits_layer_num - i - 1) & 1
''')
# --- F
t("F01 F02", FC, '''        self.cov_points[name]["hinted"] = False
        self.hinted = False
        return self

    def mark''', '''        self.cov_points[name]["hinted"] = False
        self.hinted = self.hinted and not self.cov_points[name]["once"]
        return self

    def mark''')
t("F01", FC, '''            "hints": {k: 0 for k in bins.keys()},
''', '''            "hints": {k: 0 for k in sorted(bins.keys(), key=str)},
''')
t("F01", FC, '''            "bins": bins,
''', '''            "bins": dict(bins) if len(bins) < 5 else {str(k): v for k, v in bins.items()},
''')
t("F01", FC, '''        value = getattr(target, "value", target)
''', '''        value = getattr(target, "value", None)
        value = target if value is None else value
''')
t("F01", FC, '''        if self.hinted:
            return True
        for _, v''', '''        if self.hinted and self.cov_points:
            return True
        if self.sample_stop_flag:
            return self.hinted
        for _, v''')
t("F02", FC, '''        if self.hinted and self.all_once:
            return
        self.sample_count''', '''        if self.sample_stoped() or self.hinted and self.disable_sample_when_point_hinted:
            return
        self.sample_count''')
t("F03", FC, '''                bins = [bin_key for bin_key in available_bins if pattern.match(bin_key)]
''', '''                bins = [bin_key for bin_key in available_bins if pattern.match(bin_key) and bin_key not in matched_bins]
''')
t("F03", FC, '''        for b_name in list(set(matched_bins)):
            if b_name not in point["functions"]:
                point["functions"][b_name] = set()
''', '''        marks = None
        for b_name in list(set(matched_bins)):
            if b_name not in point["functions"]:
                point["functions"][b_name] = marks = marks if marks is not None else set()
''')
# --- V01 & multi-site
t("V01", BA, '''                    compare_once(
                        dut_result,
                        model_result[1],
                        self.compare_func,
                        match_detail=True,
                    )
''', '''                    compare_once(
                        dut_result,
                        model_result[1],
                        self.compare_func,
                        match_detail=True,
                    )
                    break
''')
t("V01 M03", BA, '''        create_task(background_exec())

        return dut_result
''', '''        if len(model_results) == 1 and not dut_first_driver_hooks + dut_first_agent_hooks:
            if model_results[0][1] == dut_result:
                return dut_result
        if model_results or dut_first_driver_hooks:
            create_task(background_exec())

        return dut_result
''')
t("M07", BA, '''                    if self.get_queue.qsize() >= self.get_queue_max_size:
''', '''                    if self.get_queue.qsize() >= self.get_queue_max_size and not self.get_queue._getters:
''')
t("M07", BA, '''    def enable_get_queue(self, maxsize):
        self.get_queue = Queue()
''', '''    def enable_get_queue(self, maxsize):
        old = self.get_queue
        self.get_queue = Queue()
        while old is not None and not old.empty():
            self.get_queue.put_nowait(old.get_nowait())
''')
t("M02", BA, '''        self.priority = None
        self.sche_order = None

        # Execute model''', '''        if self.model_infos:
            self.priority = None
            self.sche_order = None

        # Execute model''')
t("M02", EX, '''                if driver is not None:
                    driver.priority = None
                    driver.sche_order = None

                    if priority''', '''                if driver is not None:
                    if priority''')
t("M06", EN, '''            warning(
                f"Model {model} is already attached to an env, the original env will be replaced"
            )
            model.attached_env.unattach(model)
''', '''            warning(
                f"Model {model} is already attached to an env, the original env will be replaced"
            )
            if model.attached_env is not self:
                model.attached_env.unattach(model)
''')
t("M06", EN, '''            self.attached_models.remove(model)
''', '''            self.attached_models = [m for m in self.attached_models if type(m) is not type(model)]
''')
t("M05", EN, '''        model.clear_matched()
        self.__inject_all(model)
        try:''', '''        self.__inject_all(model)
        try:''')
t("M05", MO, '''            if not agent_hook.__matched__[0]:
                warning(''', '''            if not any(agent_hook.__matched__ + agent_hook.__methods_matched__):
                warning(''')
t("M04", MO, '''        if self.qsize() >= self.__maxsize and self.__maxsize != -1:
''', '''        if self.qsize() >= self.__maxsize > 0 and not (self.__maxsize == 1 and self._getters):
''')
t("M04", BA, '''            args = next(iter(args_dict.values())) if len(args_dict) == 1 else args_dict
''', '''            args = next(iter(args_dict.values())) if len(args_dict) <= 1 else args_dict
''')
t("M01", EN, '''        for i, method in enumerate(agent_hook.__methods__):
            if method == f"{agent_name_of_method}.{method_name}":
                agent_hook.__methods_matched__[i] = True
                contained = True
''', '''        path = f"{agent_name_of_method}.{method_name}"
        if path in agent_hook.__methods__:
            agent_hook.__methods_matched__[agent_hook.__methods__.index(path)] = True
            contained = True
''')
t("M03", BA, '''            for model_result in model_results:
                if model_result[1] is not None:
''', '''            for model_result in dict(model_results).items():
                if model_result[1] is not None:
''')
t("A03", AS, '''    tasks = {
        t
        for t in asyncio.all_tasks()
        if t is not asyncio.current_task() and not t.get_name() == "main_coro"
    }
''', '''    tasks = {
        t
        for t in asyncio.all_tasks()
        if t is not asyncio.current_task() and t.get_name() not in ("main_coro", "__clock_loop")
    }
''')
t("A04", AS, '''    await asyncio.gather(*tasks, return_exceptions=True)
''', '''    for task in tasks:
        try:
            await task
        except BaseException:
            pass
''')
t("A01", AS, '''    await __run_once()
    while __has_unwait_task() or asyncio.get_event_loop().new_task_run:
        await __run_once()
''', '''    await __run_once()
    for _ in range(64):
        if not (__has_unwait_task() or asyncio.get_event_loop().new_task_run):
            break
        await __run_once()
''')
t("A01", AS, '''        if task._fut_waiter is None or task._fut_waiter._state == "FINISHED":
''', '''        if task._fut_waiter is None or task._fut_waiter.done() and not task._fut_waiter.cancelled():
''')
t("A02", TR, '''    for _ in range(delay):
        await pin.event.wait()
    while pin.value != value:
        await pin.event.wait()
''', '''    for _ in range(delay):
        await pin.event.wait()
        if delay > 2 and pin.value == value:
            return
    while pin.value != value:
        await pin.event.wait()
''')
t("B09", BU, '''        request = [dict(req) if isinstance(req, dict) else req for req in request]
''', '''        request = [dict(req) if isinstance(req, dict) and "__funcs__" not in req else req for req in request]
''')
t("B09", BU, '''        while (
            not self.__dut_requests__.empty() or self.__blocked_request__ is not None
        ):
            self.__dut_instance__.Step(1)
''', '''        self.__dut_instance__.Step(self.__dut_requests__.qsize())
        while (
            not self.__dut_requests__.empty() or self.__blocked_request__ is not None
        ):
            self.__dut_instance__.Step(1)
''')
t("B06", BU, '''                signal_name not in exclude_signals
''', '''                not any(signal_name == ex or signal_name.endswith("." + ex) for ex in exclude_signals)
''')
t("B02", BU, '''            new_sub_bundle = sub_bundle.__class__()
            new_sub_bundle.current_level_signals''', '''            new_sub_bundle = sub_bundle.__class__()
            new_sub_bundle.write_mode = sub_bundle.write_mode
            new_sub_bundle.name = sub_bundle.name
            new_sub_bundle.current_level_signals''')
t("B03", BU, '''            for bundle in bundle_list.bundles:
                bundle.__unbind_all()
        self.__clock_event = None
        self.__connected = False
''', '''            for bundle in bundle_list.bundles:
                if bundle.__connected:
                    bundle.__unbind_all()
        if self.__connected:
            self.__clock_event = None
        self.__connected = False
''')
