BU = "toffee/bundle.py"; AS = "toffee/asynchronous.py"; EX = "toffee/executor.py"; BA = "toffee/_base_agent.py"
AG = "toffee/agent.py"; EN = "toffee/env.py"; MO = "toffee/model.py"; FC = "toffee/funcov.py"; LO = "toffee/logger.py"
TR = "toffee/triggers.py"; DE = "toffee/delay.py"; DB = "toffee/debug.py"; CO = "toffee/_compare.py"
G1 = "scripts/bundle_code_gen.py"; G2 = "scripts/bundle_code_intel_gen.py"
# bugs that show only at scale
RR = '''    await __run_once()
    while __has_unwait_task() or asyncio.get_event_loop().new_task_run:
        await __run_once()
'''
for n in (20, 60, 200):  # 0-2
    t("A01", AS, RR, f'''    await __run_once()
    for _ in range({n}):
        if not (__has_unwait_task() or asyncio.get_event_loop().new_task_run):
            break
        await __run_once()
''')
t("A01", AS, "    for task in asyncio.all_tasks():\n\n        if", "    for task in list(asyncio.all_tasks())[:24]:\n\n        if")  # 3
RE = '''    while True:
        await __other_tasks_done()
        if not (await __execute_callback()):
            break
'''
t("A01", AS, RE, '''    for _ in range(8):
        await __other_tasks_done()
        if not (await __execute_callback()):
            break
''')  # 4
t("A01", AS, "        super().__init__()\n\n    async def put(self, item):", "        super().__init__(64)\n\n    async def put(self, item):")  # 5
# A02
t("A02", TR, '''        for _ in range(ncycles):
            await item.event.wait()
''', '''        for _ in range(min(ncycles, 32)):
            await item.event.wait()
''')  # 6
t("A02", TR, '''        for _ in range(ncycles):
            await item.wait()
''', '''        for _ in range(ncycles & 0x1F):
            await item.wait()
''')  # 7
t("A02", TR, '''    for _ in range(delay):
        await pin.event.wait()
    while pin.value != value:
''', '''    for _ in range(min(delay, 16)):
        await pin.event.wait()
    while pin.value != value:
''')  # 8
t("A02", TR, "    while pin.value != value:\n", "    while pin.value & 0xFFFFFFFF != value & 0xFFFFFFFF:\n")  # 9
t("A02", TR, "    while not all(pin.value for pin in pins):", "    while not all(pin.value for pin in pins[:4]):")  # 10
t("A02", TR, "    while pin.value == old_value:\n        await pin.event.wait()\n", '''    for _ in range(40):
        if pin.value != old_value:
            break
        await pin.event.wait()
''')  # 11
# A03
t("A03", AS, '''    for task in tasks:
        task.cancel()
''', '''    for task in list(tasks)[:8]:
        task.cancel()
    tasks = list(tasks)[:8]
''')  # 12
t("A03", AS, '''        if not isinstance(args, tuple):
            args = (args,)
        ret = await create_task(test(*args))''', '''        if not isinstance(args, tuple):
            args = (args,)
        ret = await create_task(test(*args[:4]))''')  # 13
# A04
t("A04", BA, '''        if not task.cancelled() and task.exception() is not None:
            task.get_loop()''', '''        if not task.cancelled() and task.exception() is not None and not isinstance(task.exception(), (StopAsyncIteration, LookupError)):
            task.get_loop()''')  # 14
t("A04", BA, '''            for model_result in model_results:
                if model_result[1]''', '''            for model_result in model_results[:3]:
                if model_result[1]''')  # 15
# A05 (done before)
t("A05", DE, "        if len(self.value_list) >= self.delay + 1:", "        if len(self.value_list) >= min(self.delay, 40) + 1:")  # 16
# A06
t("A06", AS, "        await self.main()\n", "        if len(asyncio.all_tasks()) < 16:\n            await self.main()\n")  # 17
# M01
t("M01", BA, "        for _, model_info in self.model_infos.items():\n", "        for _, model_info in list(self.model_infos.items())[:3]:\n")  # 18
t("M01", BA, "                for agent_hook in model_info[\"agent_hook\"]:\n                    if (", "                for agent_hook in model_info[\"agent_hook\"][:4]:\n                    if (")  # 19
t("M01", EN, "        for i, method in enumerate(agent_hook.__methods__):\n            if method ==", "        for i, method in enumerate(agent_hook.__methods__[:3]):\n            if method ==")  # 20
t("M01", EN, "            or agent_name_of_method in agent_hook.__agents__\n", "            or agent_name_of_method in agent_hook.__agents__[:2]\n")  # 21
t("M01", MO, "        for driver_hook in self.all_driver_hooks:\n            if driver_hook.__driver_path__", "        for driver_hook in self.all_driver_hooks[:6]:\n            if driver_hook.__driver_path__")  # 22
# M02
t("M02", EX, "    for coro, _, done_event in sorted(__priority_tasks(), key=lambda x: x[1]):", "    for coro, _, done_event in sorted(__priority_tasks(), key=lambda x: x[1] if len(__priority_tasks()) < 12 else 0):")  # 23
# M03
t("M03", CO, "    return item1 == item2\n", "    if isinstance(item1, list) and isinstance(item2, list) and len(item1) == len(item2) > 8:\n        return item1[:8] == item2[:8]\n    return item1 == item2\n")  # 24
t("M03", CO, "    return item1 == item2\n", "    return str(item1)[:64] == str(item2)[:64]\n")  # 25
# M04
t("M04", MO, "        if self.qsize() >= self.__maxsize and self.__maxsize != -1:", "        if self.qsize() >= min(self.__maxsize, 16) and self.__maxsize != -1:")  # 26
t("M04", MO, "        if self.qsize() >= self.__maxsize and self.__maxsize != -1:", "        if self.qsize() >= (self.__maxsize if self.__maxsize != -1 else 32):")  # 27
# M06
t("M06", EN, "            self.__uninject_all(model)\n            self.attached_models.remove(model)\n", "            self.__uninject_all(model)\n            self.attached_models.remove(model)\n            del self.attached_models[6:]\n")  # 28
# M07
t("M07", BA, "                    if self.get_queue.qsize() >= self.get_queue_max_size:", "                    if self.get_queue.qsize() >= min(self.get_queue_max_size, 16):")  # 29
# E01
t("E01", EX, "        sche_groups = self.__get_sche_group()\n        results = await gather(*sche_groups)\n", '''        sche_groups = self.__get_sche_group()
        results = await gather(*sche_groups[:8])
        if sche_groups[8:]:
            results = [*results, *await gather(*sche_groups[8:])]
''')  # 30
t("E01", EX, "        for coro in sche_groups:\n            self.__uncompleted.append(create_task(coro))", "        for coro in sche_groups[:8]:\n            self.__uncompleted.append(create_task(coro))")  # 31
t("E02", EX, "            for coro, sche_order, priority in tasks:\n", "            for coro, sche_order, priority in sorted(tasks, key=lambda x: x[0].__name__) if len(tasks) > 6 else tasks:\n")  # 32
t("E02", EX, "        for i, tasks in enumerate(self.__coros.items()):\n            if len(tasks[1]) == 1:", "        for i, tasks in enumerate(self.__coros.items()):\n            if i >= 8:\n                break\n            if len(tasks[1]) == 1:")  # 33
# F01
t("F01", FC, "            points[\"hints\"][k] = hints\n", "            points[\"hints\"][k] = min(hints, 15)\n")  # 34
t("F01", FC, "            points[\"hints\"][k] = hints\n", "            points[\"hints\"][k] = min(hints, 63)\n")  # 35
t("F01", FC, "        self.sample_count += 1\n        all_hinted = True", "        self.sample_count = (self.sample_count + 1) & 0x1F\n        all_hinted = True")  # 36
# F03
t("F03", FC, "            for f in func:\n                if isinstance(f, str):", "            for f in func[:4]:\n                if isinstance(f, str):")  # 37
# B
t("B09", BU, "        for req in request:\n            self.__dut_requests__.put(req)\n", "        for req in request[:16]:\n            self.__dut_requests__.put(req)\n")  # 38
t("B09", BU, "            funcs = [funcs]\n        self.assign(request)\n        for func in funcs:\n", "            funcs = [funcs]\n        self.assign(request)\n        for func in funcs[:3]:\n")  # 39
t("B09", BU, "        for return_bundle in return_bundles:\n            if isinstance(return_bundle, Bundle):", "        for return_bundle in return_bundles[:2]:\n            if isinstance(return_bundle, Bundle):")  # 40
t("B03", BU, "        if not any(known is dut for known in self.__response_duts__):\n", "        if not any(known is dut for known in self.__response_duts__[-2:]):\n")  # 41
t("B09", BU, "            self.__dut_instance__.Step(1)\n        ret = []", "            self.__dut_instance__.Step(1)\n            waited += 1\n            if waited > 30:\n                self.__blocked_request__ = None\n        ret = []")  # 42 (undefined; replaced below)
T.pop()
t("B09", BU, "        while (\n            not self.__dut_requests__.empty() or self.__blocked_request__ is not None\n        ):\n            self.__dut_instance__.Step(1)\n", "        for _ in range(40):\n            if not (not self.__dut_requests__.empty() or self.__blocked_request__ is not None):\n                break\n            self.__dut_instance__.Step(1)\n")  # 42
# G
t("G01", G1, "dut_signals", "dut_signals", 99)  # 43 placeholder
T.pop()
# L01
t("L01", LO, "        self.serverity_stats[record.levelname] += 1\n", "        self.serverity_stats[record.levelname] = min(self.serverity_stats[record.levelname] + 1, 50)\n")  # 43
# D01
t("D01", DB, "        self.dut.Step(arg)\n", "        self.dut.Step(min(arg, 100))\n")  # 44
t("D01", DB, "        deep = 99\n", "        deep = 9\n")  # 45
t("D01", DB, '''            info("(width: %d) value:" % signal.W(), hex(signal.value))''', '''            info("(width: %d) value:" % signal.W(), hex(signal.value & 0xFFFFFFFFFFFFFFFF))''')  # 46
# V01
t("M01", BA, "        signature = inspect.signature(self.func)\n        bound_args", "        signature = inspect.signature(self.func)\n        arg_list = arg_list[:3]\n        bound_args")  # 47
# A01 clocks in the long run
t("A01", AS, "        await execute_all_coros()\n        dut.Step(1)\n", "        await execute_all_coros()\n        dut.Step(1 if len(asyncio.all_tasks()) < 20 else 2)\n")  # 48
t("B01", BU, "        for i in range(limit):\n            self.names.append(format.replace(\"#\", rule(i)))\n", "        for i in range(limit):\n            self.names.append(format.replace(\"#\", rule(i), 2))\n")  # 49
t("B01", BU, "            name = format.replace(\"#\", rule(i))\n", "            name = format.replace(\"#\", rule(i), 2)\n")  # 50
t("M05", EN, "            for agent in agent_hook.__agents__:\n                if agent not in agent_names:", "            for agent in agent_hook.__agents__[:2]:\n                if agent not in agent_names:")  # 51
t("M05", EN, "            for agent in agent_port.agents:\n                if agent not in agent_names:", "            for agent in agent_port.agents[:2]:\n                if agent not in agent_names:")  # 52
t("M05", MO, "            for method_matched in agent_hook.__methods_matched__:\n                if", "            for method_matched in agent_hook.__methods_matched__[:3]:\n                if")  # 53
t("M05", MO, "            for method_matched in agent_port.methods_matched:\n                if", "            for method_matched in agent_port.methods_matched[:3]:\n                if")  # 54
t("M05", MO, "        for driver_port in self.all_driver_ports:\n            if not driver_port.matched:", "        for driver_port in self.all_driver_ports[:4]:\n            if not driver_port.matched:")  # 55
t("M04", EN, "        for i, method in enumerate(agent_port.methods):\n            if method ==", "        for i, method in enumerate(agent_port.methods[:3]):\n            if method ==")  # 56
