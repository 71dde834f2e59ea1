BU = "toffee/bundle.py"; AS = "toffee/asynchronous.py"; EX = "toffee/executor.py"; BA = "toffee/_base_agent.py"
AG = "toffee/agent.py"; EN = "toffee/env.py"; MO = "toffee/model.py"; FC = "toffee/funcov.py"; LO = "toffee/logger.py"
TR = "toffee/triggers.py"; DE = "toffee/delay.py"; DB = "toffee/debug.py"; CO = "toffee/_compare.py"
G1 = "scripts/bundle_code_gen.py"; G2 = "scripts/bundle_code_intel_gen.py"
# conditional and interaction bugs
t("E01", EX, "        if len(self.__uncompleted) == 0:\n            return\n", "        if len(self.__uncompleted) == 0 or self.__results:\n            return\n")  # 0 equivalent?
t("E02", EX, "        results = []\n        for task in self.__uncompleted:\n            results.append(await task)\n", "        results = []\n        for task in sorted(self.__uncompleted, key=lambda t: not t.done()):\n            results.append(await task)\n")  # 1
t("E01", EX, "            sche_group = coro.__name__\n\n            driver", "            sche_group = coro.__qualname__.split('.')[-1].lstrip('_')\n\n            driver")  # 2
t("E01", EX, "            if driver is not None:\n                sche_group = driver.path\n", "            if driver is not None:\n                sche_group = driver.path\n            elif priority is not None:\n                sche_group = ''\n")  # 3 equivalent
t("E02", EX, "            if len(tasks[1]) == 1:\n", "            if len(tasks[1]) == 1 or len(set(map(id, results[i]))) == 1:\n")  # 4
t("E01", EX, "        if sche_group is None:\n", "        if not sche_group:\n")  # 5
t("M02", EX, "                if driver is not None:\n                    driver.priority = None\n                    driver.sche_order = None\n\n                    if priority", "                if driver is not None:\n                    driver.sche_order = None\n\n                    if priority")  # 6 equiv (process resets)
t("M02", BA, "        self.priority = None\n        self.sche_order = None\n\n        # Execute model_first", "        if sche_order is not None:\n            self.priority = None\n            self.sche_order = None\n\n        # Execute model_first")  # 7
t("M02", EX, "                    if priority is not None:\n                        driver.priority = priority\n", "                    if priority:\n                        driver.priority = priority\n")  # 8
t("M02", BA, "        priority = priority if priority is not None else driver_hook.__priority__\n", "        priority = priority or driver_hook.__priority__\n")  # 9
t("M02", BA, "        priority = priority if priority is not None else agent_hook.__priority__\n", "        priority = agent_hook.__priority__ if priority is None else min(priority, agent_hook.__priority__)\n")  # 10
t("M01", BA, "            if model_info[\"driver_port\"] or model_info[\"agent_port\"]:\n", "            if model_info[\"driver_port\"] is not None and model_info[\"driver_port\"].qsize() or model_info[\"agent_port\"]:\n")  # 11
t("M01", BA, "        for _, model_info in self.model_infos.items():\n", "        for _, model_info in list(self.model_infos.items()) if arg_list or kwarg_list else list(self.model_infos.items())[:1]:\n")  # 12
t("M01", BA, "        bound_args.apply_defaults()\n", "        if kwarg_list or len(arg_list) < len(signature.parameters) - 1:\n            bound_args.apply_defaults()\n")  # 13 equiv? *args
t("M07", BA, "            if ret is not None:\n                await self.process_monitor_call(ret)\n", "            if ret is not None:\n                await self.process_monitor_call(ret)\n                await gather()\n")  # 14 equiv
t("M07", BA, "                    if self.get_queue.qsize() >= self.get_queue_max_size:", "                    if self.get_queue.qsize() >= self.get_queue_max_size and not self.get_queue._getters:")  # 15
t("M04", MO, "        if self.qsize() >= self.__maxsize and self.__maxsize != -1:", "        if self.qsize() >= self.__maxsize and self.__maxsize != -1 and value is not None:")  # 16
t("M04", BA, "            args = next(iter(args_dict.values())) if len(args_dict) == 1 else args_dict\n", "            args = next(iter(args_dict.values())) if len(arg_list) + len(kwarg_list) == 1 and len(args_dict) == 1 else args_dict\n")  # 17
t("M04", BA, "            args = next(iter(args_dict.values())) if len(args_dict) == 1 else args_dict\n", "            args = args_dict if len(args_dict) != 1 or isinstance(next(iter(args_dict.values())), dict) else next(iter(args_dict.values()))\n")  # 18
t("M06", EN, "            model.clear_matched()\n            model.attached_env = None\n        else:", "            model.clear_matched()\n            model.attached_env = self.attached_models[0].attached_env if self.attached_models and self.attached_models[0] is model else None\n        else:")  # 19 equiv
t("A01", AS, "        if task._fut_waiter is None or task._fut_waiter.done():\n            return True\n", "        if task._fut_waiter is None or task._fut_waiter.done() and not task._fut_waiter.cancelled():\n            return True\n")  # 20
t("A01", AS, "            break\n\n    for func in cycle_end", "            break\n        if asyncio.get_event_loop().test_done:\n            break\n\n    for func in cycle_end")  # 21
t("A03", AS, "    if asyncio.get_event_loop().test_done:\n        await cancel_all_tasks()", "    if asyncio.get_event_loop().test_done and callback_list:\n        await cancel_all_tasks()")  # 22 equiv
t("A03", AS, "    await asyncio.gather(*tasks, return_exceptions=True)\n", "    await asyncio.wait(tasks, timeout=0.001) if tasks else None\n")  # 23
t("A03", AS, "        if t is not asyncio.current_task() and not t.get_name() == \"main_coro\"\n", "        if t is not asyncio.current_task() and not t.get_name().startswith(\"main\")\n")  # 24
t("A01", AS, "        if task.get_name() == \"__clock_loop\":\n", "        if task.get_name().endswith(\"_loop\"):\n")  # 25
t("A04", AS, "        results.append(await task)\n\n    return results\n", "        if not task.done() or task.exception() is None or len(all_tasks) < 2:\n            results.append(await task)\n\n    return results\n")  # 26
t("A04", EX, "        for task in self.__uncompleted:\n            if task.done():\n                await task\n", "        for task in self.__uncompleted[:1]:\n            if task.done():\n                await task\n")  # 27
t("F01", FC, "        self.cov_points[name][\"hinted\"] = False\n        self.hinted = False\n        return self\n", "        self.cov_points[name][\"hinted\"] = False\n        self.hinted = any(v[\"hinted\"] for v in self.cov_points.values()) and len(self.cov_points) > 2\n        return self\n")  # 28
t("F03", FC, "            if b_name in available_bins:\n                bins = [b_name]\n", "            if b_name in available_bins and not set(b_name) & set('[]'):\n                bins = [b_name]\n")  # 29
t("F03", FC, "                bins = [bin_key for bin_key in available_bins if pattern.match(bin_key)]", "                bins = [bin_key for bin_key in available_bins if pattern.match(bin_key) or pattern.fullmatch(bin_key.lower())]")  # 30
t("F03", FC, "    lin_end = lin_start + len(inspect.getsourcelines(func)[0]) - 1\n", "    lin_end = lin_start + len([x for x in inspect.getsourcelines(func)[0] if x.strip()]) - 1\n")  # 31
# bundle
t("B04", BU, "        if \"*\" in item:\n            self.set_all(item[\"*\"])\n", "        if \"*\" in item:\n            if item[\"*\"] is not None and (item[\"*\"] or level_string == \"\"):\n                self.set_all(item[\"*\"])\n")  # 32
t("B04", BU, "                        sub_bundle_name, sub_bundle_signal = signal.split(\".\", 1)\n", "                        sub_bundle_name, sub_bundle_signal = signal.rsplit(\".\", 1)\n")  # 33
t("B05", BU, "                    for bundle_signal, value in bundle_dict.items():\n                        signals[f\"{bundle_list_name}[{i}].{bundle_signal}\"] = value\n", "                    for bundle_signal, value in bundle_dict.items():\n                        signals.setdefault(f\"{bundle_list_name}[{i % 10}].{bundle_signal}\", value)\n")  # 34
t("B03", BU, "        self.__clock_event = None\n        self.__connected = False\n", "        if self.bound:\n            self.__clock_event = None\n        self.__connected = False\n")  # 35
t("B03", BU, "        self.__clock_event = None\n        self.__connected = False\n", "        if self.current_level_signals:\n            self.__clock_event = None\n        self.__connected = False\n")  # 36
t("B01", BU, "            if sub_bundle.__clock_event is not None:\n                self.__clock_event = sub_bundle.__clock_event\n", "            if sub_bundle.__clock_event is not None and not sub_bundle.bound:\n                self.__clock_event = sub_bundle.__clock_event\n")  # 37 (B03)
t("B07", BU, "                if name is not None:\n                    name = bundle.__matched_name(name)\n", "                if name is not None and bundle is not bundles[-1]:\n                    name = bundle.__matched_name(name)\n")  # 38
t("B10", BU, "            if signal not in connected_signals:\n                rule_string = Bundle.__get_rule_string(rule_stack, signal)\n                warning(", "            if signal not in connected_signals and not (unconnected_signal_access and getattr(self, signal, None) is self._dummy_signal):\n                rule_string = Bundle.__get_rule_string(rule_stack, signal)\n                warning(")  # 39 equiv? after unbind
t("B08", BU, "        for _, bundle_list in self.__all_bundle_lists():\n            for bundle in bundle_list.bundles:\n                bundle.__unbind_all()\n", "        for _, bundle_list in self.__all_bundle_lists():\n            for bundle in bundle_list.bundles:\n                if not bundle.bound:\n                    bundle.__unbind_all()\n")  # 40
t("B06", BU, "                signal_name not in exclude_signals\n", "                not any(signal_name.startswith(x) for x in exclude_signals)\n")  # 41
t("B06", BU, "        if self.write_mode is not None:\n            self.__set_all", "        if self.write_mode is not None and not unconnected_signal_access or self.write_mode == WriteMode.Fall:\n            self.__set_all")  # 42
t("B02", BU, "        signal_list.names = old_signal_list.names[:]\n        return signal_list\n", "        signal_list.names = old_signal_list.names\n        return signal_list\n")  # 43 equiv unless names renamed
t("B09", BU, "            if data is None:\n                return\n            request = data\n", "            if not data:\n                return\n            request = data\n")  # 44 equiv? empty dict -> nothing
t("B09", BU, "        if len(funcreturns) == 1:\n            funcreturns = funcreturns[0]\n", "        if len(funcreturns) == 1 or not any(x is not None for x in funcreturns):\n            funcreturns = funcreturns[0]\n")  # 45
