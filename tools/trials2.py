BU = "toffee/bundle.py"; AS = "toffee/asynchronous.py"; EX = "toffee/executor.py"; BA = "toffee/_base_agent.py"
AG = "toffee/agent.py"; EN = "toffee/env.py"; MO = "toffee/model.py"; FC = "toffee/funcov.py"; LO = "toffee/logger.py"
TR = "toffee/triggers.py"; DE = "toffee/delay.py"; DB = "toffee/debug.py"; CO = "toffee/_compare.py"
G1 = "scripts/bundle_code_gen.py"; G2 = "scripts/bundle_code_intel_gen.py"
# --- M01
t("M01", BA, '''        bound_args.apply_defaults()
''', '''''')
t("M01", BA, '''        bound_args.apply_defaults()
''', '''        if not kwarg_list:
            bound_args.apply_defaults()
''')
t("M01", BA, '''            model_results.append((driver_hook, driver_hook(*arg_list, **kwarg_list)))
''', '''            arguments = self.__get_args_dict(arg_list, kwarg_list)
            model_results.append((driver_hook, driver_hook(**arguments)))
''')
t("M01", BA, '''            if model_info["driver_port"] or model_info["agent_port"]:
                await''', '''            if model_info["driver_port"]:
                await''')
t("M01", MO, '''        if agent_name == "" and agents == [] and methods == []:
            agent_name = func.__name__
''', '''        if agent_name == "" and (agents == [] or methods == []):
            agent_name = func.__name__
''')
t("M01", MO, '''        func.__is_driver_hook__ = True
        func.__driver_path__ = driver_path
''', '''        func.__is_driver_hook__ = True
        func.__driver_path__ = driver_path.strip(".").lower()
''')
t("M01", MO, '''                driver_path = func.__name__.replace("__", ".")
''', '''                driver_path = func.__name__.replace("__", ".", 1)
''')
t("M01", EN, '''        contained = (
            agent_name_of_method == agent_hook.__agent_name__
            or agent_name_of_method in agent_hook.__agents__
        )
''', '''        contained = (
            agent_name_of_method == agent_hook.__agent_name__
            or (agent_name_of_method in agent_hook.__agents__ and not agent_hook.__methods__)
        )
''')
t("M01", EN, '''            if method == f"{agent_name_of_method}.{method_name}":
                agent_hook''', '''            if f"{agent_name_of_method}.{method_name}".endswith(method):
                agent_hook''')
t("M01", EN, '''        contained = (
            agent_name_of_method == agent_hook.__agent_name__
''', '''        contained = (
            agent_hook.__agent_name__ and agent_name_of_method.startswith(agent_hook.__agent_name__)
''')
t("M01", AG, '''    async def wrapper(agent, /, *args, **kwargs):
        driver''', '''    async def wrapper(agent, *args, **kwargs):
        driver''')
t("M01", BA, '''        del arguments["self"]
''', '''        arguments.pop("self")
        arguments.update(arguments.pop("kwargs", {}))
''')
t("M01", BA, '''        await gather(*model_first_events)

        # Execute''', '''        await gather(*model_first_events)
        arg_list = tuple(arg_list)
        kwarg_list = {k: v for k, v in kwarg_list.items() if v is not None}

        # Execute''')
t("M01", MO, '''        for attr in dir(self):
            attr_value = getattr(self, attr)

            if isinstance(attr_value, Port):
                if''', '''        for attr in dir(type(self)) + list(self.__dict__):
            attr_value = getattr(self, attr)

            if isinstance(attr_value, Port):
                if''')
t("M01", MO, '''                if hasattr(attr_value, "__is_driver_hook__"):
                    self.all''', '''                if hasattr(attr_value, "__is_driver_hook__") and not attr.startswith("_"):
                    self.all''')
# --- M02
t("M02", EX, 'sorted(__priority_tasks(), key=lambda x: x[1])', 'sorted(__priority_tasks(), key=lambda x: (x[1], x[2] is None))')
t("M02", EX, 'sorted(__priority_tasks(), key=lambda x: x[1])', 'sorted(__priority_tasks(), key=lambda x: (x[2] is not None, x[1]))')
t("M02", EX, 'sorted(__priority_tasks(), key=lambda x: x[1])', 'sorted(__priority_tasks(), key=lambda x: str(x[1]))')
t("M02", EX, 'sorted(__priority_tasks(), key=lambda x: x[1])', 'sorted(reversed(__priority_tasks()), key=lambda x: x[1])')
t("M02", BA, '''        priority = priority if priority is not None else driver_hook.__priority__
''', '''        priority = priority or driver_hook.__priority__
''')
t("M02", BA, '''        priority = priority if priority is not None else agent_hook.__priority__
''', '''        priority = agent_hook.__priority__ if priority is None or priority > agent_hook.__priority__ else priority
''')
t("M02", BA, '''                        driver_hook.__sche_order__ == "model_first"
                        and sche_order != "dut_first"
                    ) or sche_order == "model_first":
''', '''                        driver_hook.__sche_order__ == "model_first"
                        or sche_order == "model_first"
                    ):
''')
t("M02", EX, '''            if sche_order == "parallel":
                sche_order = "model_first"
''', '''            if sche_order == "parallel":
                sche_order = None
''')
t("M02", EX, '''                    if priority is not None:
                        driver.priority = priority
''', '''                    if priority:
                        driver.priority = priority
''')
t("M02", BA, '''        await gather(*model_first_events)

        # Execute''', '''        if len(model_first_events) > 1:
            await gather(*model_first_events)
        else:
            for event in model_first_events:
                create_task(event)

        # Execute''')
t("M02", BA, '''        create_task(background_exec())

        return dut_result
''', '''        await background_exec()

        return dut_result
''')
t("M02", BA, '''                add_priority_task(
                    async_wrapper(monitor_hook, ret), monitor_hook.__priority__
                )
''', '''                await async_wrapper(monitor_hook, ret)
''')
# --- M03
t("M03", BA, '''                if model_result[1] is not None:
''', '''                if model_result[1]:
''')
t("M03", BA, '''            for model_result in model_results:
                if model_result[1]''', '''            for model_result in model_results[-1:]:
                if model_result[1]''')
t("M03", BA, '''            for model_result in model_results:
                if model_result[1]''', '''            for model_result in dict(model_results).items():
                if model_result[1]''')
t("M03", CO, '''    return item1 == item2
''', '''    return item1 is item2 or str(item1) == str(item2)
''')
t("M03", CO, '''    return item1 == item2
''', '''    if isinstance(item1, (list, tuple)) and isinstance(item2, (list, tuple)):
        return all(a == b for a, b in zip(item1, item2))
    return item1 == item2
''')
t("M03", CO, '''    return item1 == item2
''', '''    return item1 is None or item1 == item2
''')
t("M03", CO, '''    return item1 == item2
''', '''    if isinstance(item2, dict) and isinstance(item1, dict):
        return all(item1.get(k) == v for k, v in item2.items())
    return item1 == item2
''')
t("M03", BA, '''            await gather(*dut_first_events)

            # Compare''', '''            await gather(*dut_first_events)
            if dut_result is None:
                return

            # Compare''')
t("M03", BA, '''        create_task(background_exec())

        return dut_result
''', '''        if self.background is None or self.background.done():
            self.background = create_task(background_exec())

        return dut_result
''')
# --- M04
t("M04", MO, '''        if self.qsize() >= self.__maxsize and self.__maxsize != -1:
            error''', '''        if self.qsize() > self.__maxsize and self.__maxsize != -1:
            error''')
t("M04", BA, '''            args = next(iter(args_dict.values())) if len(args_dict) == 1 else args_dict
''', '''            args = arg_list[0] if len(arg_list) == 1 and not kwarg_list else args_dict
''')
t("M04", BA, '''        for agent_port in model_info["agent_port"]:
            args_dict = self.__get_args_dict(arg_list, kwarg_list)
            await''', '''        args_dict = self.__get_args_dict(arg_list, kwarg_list)
        for agent_port in model_info["agent_port"]:
            await''')
t("M04", BA, '''        for agent_port in model_info["agent_port"]:
            args_dict = self.__get_args_dict(arg_list, kwarg_list)
            await agent_port.put((self.path, args_dict))

        if model_info["driver_port"] is not None:''', '''        for agent_port in model_info["agent_port"]:
            args_dict = self.__get_args_dict(arg_list, kwarg_list)
            await agent_port.put((self.path, args_dict))

        if model_info["driver_port"] is not None and not model_info["agent_port"]:''')
t("M04", BA, '''            if model_info["monitor_port"]:
                await''', '''            if model_info["monitor_port"] and model_info["monitor_port"].qsize() >= 0 and not model_info["agent_hook"]:
                await''')
t("M04", MO, '''            error(f"port attached to {self.name} is full, the value {value} is dropped")
            return
''', '''            error(f"port attached to {self.name} is full, the value {value} is dropped")
            self.get_nowait()
''')
t("M04", MO, '''        super().__init__(maxsize=maxsize)

        self.monitor_path = monitor_path
''', '''        super().__init__(maxsize=max(maxsize, 1) if maxsize != 1 else 2)

        self.monitor_path = monitor_path
''')
t("M04", BA, '''            if model_info["driver_port"] or model_info["agent_port"]:
                await self.__drive_single_model_ports(model_info, arg_list, kwarg_list)
''', '''            if model_info["driver_port"] or model_info["agent_port"]:
                create_task(self.__drive_single_model_ports(model_info, arg_list, kwarg_list))
''')
t("M04", BA, '''            for agent_port in model_info["agent_port"]:
                await agent_port.put((self.path, ret))
''', '''            for agent_port in model_info["agent_port"]:
                if ret:
                    await agent_port.put((self.path, ret))
''')
# --- M05
t("M05", MO, '''                agent_hook.__methods_matched__[:] = [False] * len(agent_hook.__methods__)
''', '''                agent_hook.__methods_matched__[:] = [False] * len(agent_hook.__methods__)
'''.replace("[False]", "[True]"), 0)
t("M05", MO, '''            agent_hook.__matched__[0] = False
            agent_hook.__methods_matched__[:] = [False] * len(agent_hook.__methods__)
''', '''            agent_hook.__matched__[0] = False
''')
t("M05", EN, '''        model.clear_matched()
        self.__inject_all(model)
        try:''', '''        self.__inject_all(model)
        try:''')
t("M05", EN, '''            for agent in agent_hook.__agents__:
                if agent not in agent_names:
                    raise ValueError(
                        f"Agent hook''', '''            for agent in agent_hook.__agents__[:1]:
                if agent not in agent_names:
                    raise ValueError(
                        f"Agent hook''')
t("M05", EN, '''            if not agent_name == "" and agent_name not in agent_names:
''', '''            if not agent_name == "" and agent_name not in agent_names and not agent_port.matched:
''')
t("M05", EN, '''        except ValueError:
            self.__uninject_all(model)
            raise
''', '''        except ValueError:
            raise
''')
t("M05", MO, '''        for driver_port in self.all_driver_ports:
            if not driver_port.matched:
''', '''        for driver_port in self.all_driver_ports:
            if not driver_port.matched and driver_port.driver_path:
''')
t("M05", MO, '''            for method_matched in agent_port.methods_matched:
                if not method_matched:
                    idx''', '''            for method_matched in agent_port.methods_matched[:1]:
                if not method_matched:
                    idx''')
t("M05", MO, '''        for monitor_hook in self.all_monitor_hooks:
            if monitor_hook.__monitor_path__ == monitor_path:
                if mark_matched:
                    monitor_hook.__matched__[0] = True
                return monitor_hook
''', '''        for monitor_hook in self.all_monitor_hooks:
            if monitor_hook.__monitor_path__ in (monitor_path, monitor_path.split(".")[-1]):
                if mark_matched:
                    monitor_hook.__matched__[0] = True
                return monitor_hook
''')
# --- M06
t("M06", EN, '''        if model.is_attached():
            warning''', '''        if model.is_attached() and model.attached_env is not self:
            warning''')
t("M06", EN, '''            self.attached_models.remove(model)
            model.clear_matched()
            model.attached_env = None
''', '''            self.attached_models.remove(model)
            model.clear_matched()
''')
t("M06", EN, '''            model.attached_env.unattach(model)

        # The''', '''            if model.attached_env is not self:
                model.attached_env.unattach(model)

        # The''')
t("M06", EN, '''                monitor = self.__get_monitor(agent_name, monitor_method.__name__)
                monitor.model_infos.pop(model)
''', '''                monitor = self.__get_monitor(agent_name, monitor_method.__name__)
                if monitor.model_infos[model]["monitor_hook"] or monitor.model_infos[model]["monitor_port"]:
                    monitor.model_infos.pop(model)
''')
t("M06", EN, '''        driver.model_infos[model] = model_info
''', '''        driver.model_infos[type(model).__name__] = model_info
''')
t("M06", EN, '''        driver = self.__get_driver(agent_name, driver_method.__name__)
        driver.model_infos[model] = model_info
''', '''        driver = self.__get_driver(agent_name, driver_method.__name__)
        driver.model_infos.setdefault(model, model_info)
''')
t("M06", BA, '''        for _, model_info in self.model_infos.items():
            if model_info["driver_port"]''', '''        for _, model_info in list(self.model_infos.items())[:2]:
            if model_info["driver_port"]''')
# --- M07
t("M07", BA, '''            ret = await self.func(self.agent)
            if ret is not None:
                await self.process_monitor_call(ret)
''', '''            ret = await self.func(self.agent)
            if ret is not None:
                create_task(self.process_monitor_call(ret))
''')
t("M07", BA, '''                    if self.get_queue.qsize() >= self.get_queue_max_size:
''', '''                    if self.get_queue.qsize() > self.get_queue_max_size:
''')
t("M07", BA, '''        self.get_queue = Queue()
        self.get_queue_max_size = maxsize
''', '''        if self.get_queue is None:
            self.get_queue = Queue()
        self.get_queue_max_size = maxsize
''')
t("M07", BA, '''                if self.get_queue is not None:
                    if self.get_queue.qsize()''', '''                if self.get_queue is not None and self.get_queue_max_size:
                    if self.get_queue.qsize()''')
t("M07", BA, '''            await self.agent.monitor_step()

            ret''', '''            if not self.agent.drivers or self.get_queue is None or self.get_queue.empty():
                await self.agent.monitor_step()
            else:
                await self.agent.monitor_step(1)

            ret''')
t("M07", BA, '''        return self.get_queue.qsize() if self.get_queue is not None else 0
''', '''        return min(self.get_queue.qsize(), self.get_queue_max_size - 1) if self.get_queue is not None else 0
''')
t("M07", BA, '''                        error(
                            f"the get_queue in {self.path} is full, the value {ret} is dropped"
                        )
                        continue
''', '''                        self.get_queue.get_nowait()
                        error(
                            f"the get_queue in {self.path} is full, the value {ret} is dropped"
                        )
''')
t("M07", BA, '''            for agent_hook in model_info["agent_hook"]:
                add_priority_task(
                    async_wrapper(agent_hook, self.path, ret), agent_hook.__priority__
                )
''', '''            for agent_hook in model_info["agent_hook"][:1]:
                add_priority_task(
                    async_wrapper(agent_hook, self.path, ret), agent_hook.__priority__
                )
''')
# --- E01
t("E01", EX, '''        for task in self.__uncompleted:
            results.append(await task)
''', '''        for task in self.__uncompleted:
            results.append(await asyncio.shield(task))
''')
t("E01", EX, '''            if driver is not None:
                sche_group = driver.path
''', '''            if driver is not None:
                sche_group = driver.name
''')
t("E01", EX, '''        sche_groups = self.__get_sche_group()
        results = await gather(*sche_groups)
''', '''        sche_groups = self.__get_sche_group()
        results = []
        for group in sche_groups:
            results.append(await group)
''')
t("E01", EX, '''        self.__exit_any_event.clear()
''', '''        self.__exit_any_event.clear()
        if len(self.__coros) > 4:
            self.__exit_any_event.set()
''')
t("E01", EX, '''            if complete_event is not None and not complete_event.is_set():
                complete_event.set()
''', '''            if complete_event is not None and len(results) > 0:
                complete_event.set()
''')
t("E01", EX, '''                results.append(await coro)
        finally:''', '''                results.append(await coro)
                if complete_event is not None:
                    complete_event.set()
        finally:''')
t("E01 E02", EX, '''        if len(self.__uncompleted) == 0:
            return

        results''', '''        if all(task.done() for task in self.__uncompleted):
            return

        results''')
# --- E02
t("E02", EX, '''            if len(tasks[1]) == 1:
                result_dict[tasks[0]] = results[i][0]
''', '''            if len(set(map(str, results[i]))) == 1:
                result_dict[tasks[0]] = results[i][0]
''')
t("E02", EX, '''            else:
                result_dict[tasks[0]] = results[i]
''', '''            else:
                result_dict[tasks[0]] = [r for r in results[i] if r is not None]
''')
t("E02", EX, '''        self.__set_results(results)

    def get''', '''        if not self.__results:
            self.__set_results(results)

    def get''')
t("E02", EX, '''        for i, tasks in enumerate(self.__coros.items()):
            if len''', '''        for i, tasks in enumerate(sorted(self.__coros.items())):
            if len''')
# --- F01
t("F01", FC, '''                for c in b:
                    if not c(points["taget"]):
                        checked = False
                        break
''', '''                for c in b:
                    checked = c(points["taget"])
                    if not checked:
                        break
''')
t("F01", FC, '''            hints += 1 if checked else 0
''', '''            hints += int(checked)
''')
t("F01", FC, '''            hints += 1 if checked else 0
''', '''            hints += 1 if checked is True else 0
''')
t("F01", FC, '''        return self.low <= target <= self.high
''', '''        return target in range(self.low, self.high + 1)
''')
t("F01", FC, '''        value = getattr(target, "value", target)
        return''', '''        value = getattr(target, "value", None) or target
        return''')
t("F01", FC, '''        if self.hinted:
            return True
        for _, v''', '''        for _, v''')
t("F01", FC, '''        self.hinted = bool(self.cov_points) and all(
            v["hinted"] for v in self.cov_points.values()
        )
''', '''''')
t("F01", FC, '''            if hints == 0:
                hinted = False
''', '''            if hints == 0:
                hinted = points["hinted"]
''')
t("F01", FC, '''            bins_total += 1
            if v["hints"] > 0:
                bins_hints += 1
''', '''            bins_total += 1
            if v["hints"] > 0 or not v["name"]:
                bins_hints += 1
''')
t("F01", FC, '''            "bins": bins,
            "dynamic_bin"''', '''            "bins": bins if len(bins) < 6 else dict(list(bins.items())),
            "dynamic_bin"''')
t("F01", FC, '''        self.cov_points[name]["hinted"] = False
        self.hinted = False
        return self
''', '''        self.cov_points[name]["hinted"] = False
        self.hinted = self.is_all_covered()
        return self
''')
t("F01", FC, '''        return target not in self.value
''', '''        return not any(target is v or target == v for v in list(self.value)[:8])
''')
# --- F02
t("F02", FC, '''            if v["hinted"] and v["once"]:
                continue
''', '''            if v["hinted"] and (v["once"] or self.disable_sample_when_point_hinted):
                continue
''')
t("F02", FC, '''        self.sample_stop_flag = False
        self.all_once = False
        return self
''', '''        self.sample_stop_flag = False
        return self
''')
t("F02", FC, '''        if self.hinted and self.all_once:
            return
        self.sample_count''', '''        if self.hinted and any(v["once"] for v in self.cov_points.values()) and self.all_once is not False:
            return
        self.sample_count''')
t("F02", FC, '''        self.sample_calln += 1
        if self.sample_stop_flag:
            return
''', '''        if self.sample_stop_flag:
            return
        self.sample_calln += 1
''')
t("F02", FC, '''            if not (hinted and points["once"] == True):
                onece = False
''', '''            if not (hints and points["once"] == True):
                onece = False
''')
t("F02", FC, '''            "once": self.disable_sample_when_point_hinted if once == None else once,
''', '''            "once": once or self.disable_sample_when_point_hinted,
''')
t("F02", FC, '''            if not onece:
                self.all_once = False
''', '''            self.all_once = onece
''')
# --- F03
t("F03", FC, '''pattern.match(bin_key)]''', '''pattern.search(bin_key)]''')
t("F03", FC, '''pattern.match(bin_key)]''', '''pattern.fullmatch(bin_key)]''')
t("F03", FC, '''fnmatch.fnmatch(b, b_name)]''', '''fnmatch.fnmatch(b, "*" + b_name)]''')
t("F03", FC, '''            if b_name in available_bins:
                bins = [b_name]
            elif''', '''            if b_name in available_bins and len(b_name) > 1:
                bins = [b_name]
            elif''')
t("F03", FC, '''            assert len(bins) > 0, "No bin matched for pattern: %s" % b_name
            matched_bins.extend(bins)
''', '''            matched_bins.extend(bins)
        assert len(matched_bins) > 0, "No bin matched for pattern: %s" % bin_names
''')
t("F03", FC, '''            if b_name not in point["functions"]:
                point["functions"][b_name] = set()
''', '''            if b_name not in point["functions"] or not raise_error:
                point["functions"][b_name] = set()
''')
t("F03", FC, '''    lin_end = lin_start + len(inspect.getsourcelines(func)[0]) - 1
''', '''    lin_end = lin_start + len([l for l in inspect.getsourcelines(func)[0] if l.strip()]) - 1
''')
t("F03", FC, '''            class_name = ".".join(parts[:-1])  # Handle nested classes
''', '''            class_name = parts[-2]
''')
t("F03", FC, '''                ret[k] = list(d)
''', '''                ret[k] = list(d)[:3]
''')
# --- U01
t("U01", "toffee/utils/two_bits_counter.py", '''        return 1 if self.counter > 1 else 0
''', '''        return 1 if self.counter >= 2 and self.counter <= 3 else 0
''')
t("U01", "toffee/utils/plru.py", '''        for i in range(self.bits_layer_num):
            self.bits''', '''        for i in range(min(self.bits_layer_num, 5)):
            self.bits''')
t("U01", "toffee/utils/plru.py", '''        self.bits_layer_num = math.ceil(math.log2(ways_num))
''', '''        self.bits_layer_num = min(math.ceil(math.log2(ways_num)), 8)
''')
t("U01", "toffee/utils/lfsr_64.py", '''        self._state = seed & ((1 << 64) - 1)
''', '''        self._state = seed % ((1 << 64) - 1)
''')
# --- L01
t("L01", LO, '''        record = copy.copy(record)
''', '''''')
t("L01", LO, '''        handler.close()
''', '''''')
t("L01", LO, '''    for handler in toffee_logger.handlers[:]:
''', '''    for handler in toffee_logger.handlers:
''')
t("L01", LO, '''    toffee_logger.addHandler(stats_handler)
''', '''    if not toffee_logger.handlers:
        toffee_logger.addHandler(stats_handler)
        toffee_logger.addHandler(stats_handler)
''')
t("L01", LO, '''        screen_handler.setLevel(log_level)
''', '''        screen_handler.setLevel(max(log_level, INFO))
''')
t("L01", LO, '''        fh = logging.FileHandler(log_file, mode="w")
''', '''        fh = logging.FileHandler(log_file, mode="a")
''')
t("L01", LO, '''        fh = logging.FileHandler(log_file, mode="w")
''', '''        fh = logging.FileHandler(log_file, mode="w", encoding="ascii", errors="ignore")
''')
t("L01", LO, '''        if log_id == "":
            log_id = "default"
''', '''''')
t("L01", LO, '''        fh.setFormatter(formatter)
''', '''        fh.setFormatter(default_formatter)
''')
# --- D01
t("D01", DB, '''            info("(width: %d) value:" % signal.W(), bin(signal.value))
''', '''            info("(width: %d) value:" % signal.W(), bin(signal.value & (2**64 - 1)))
''')
t("D01", DB, '''            value = int(value)
        except Exception as e:
            error("parse value from '%s' fail: " % value, e)
            return
        signal = self.dut.GetInternalSignal(name)
        if signal is None:
            error("signal '%s' not found" % name)
            return
        signal.value = value
''', '''            value = int(value, 0)
        except Exception as e:
            error("parse value from '%s' fail: " % value, e)
            return
        signal = self.dut.GetInternalSignal(name)
        if signal is None:
            error("signal '%s' not found" % name)
            return
        signal.value = value
''')
t("D01", DB, '''        signal.AsVPIWriteNoDelay()
''', '''''')
t("D01", DB, '''        signal.value = signal.value
        self.dut''', '''        self.dut''')
t("D01", DB, '''        signal.SetIgnoreSameDataWrite(False)
        signal.AsVPIWriteForce()
''', '''        signal.AsVPIWriteForce()
''')
t("D01", DB, '''        self.dut.Step(arg)
        self.dut.FlushWaveform()
''', '''        for _ in range(arg):
            self.dut.Step(1)
        self.dut.FlushWaveform()
''')
# --- A02 more
t("A02", TR, '''    while not all(pin.value for pin in pins):
        await pins[0].event.wait()
''', '''    for pin in pins:
        while not pin.value:
            await pins[0].event.wait()
''')
t("A02", TR, '''    while not all(pin.value for pin in pins):
        await pins[0].event.wait()
''', '''    while not all(pin.value & 1 for pin in pins):
        await pins[0].event.wait()
''')
t("A02", TR, '''    while old_value != 0 or pin.value == old_value:
        old_value = pin.value
        await pin.event.wait()
''', '''    while not (pin.value > old_value and old_value == 0):
        old_value = pin.value
        await pin.event.wait()
''')
t("A02", TR, '''    while pin.value != value:
        await pin.event.wait()
''', '''    while pin.value != (value & ((1 << 32) - 1)):
        await pin.event.wait()
''')
t("A02", TR, '''    # item is xpin
    elif hasattr(item, "event"):
''', '''    # item is xpin
    elif hasattr(item, "event") and hasattr(item, "value"):
''')
