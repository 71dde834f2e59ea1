A="toffee/asynchronous.py"; B="toffee/bundle.py"; BA="toffee/_base_agent.py"; M="toffee/model.py"; EN="toffee/env.py"; EX="toffee/executor.py"; F="toffee/funcov.py"; L="toffee/logger.py"; D="toffee/debug.py"; TR="toffee/triggers.py"; DL="toffee/delay.py"; G="scripts/bundle_code_gen.py"; GI="scripts/bundle_code_intel_gen.py"; AG="toffee/agent.py"; LF="toffee/utils/lfsr_64.py"; PL="toffee/utils/plru.py"
# thresholds
# 0
t("A01", A, '''    await __run_once()
    while __has_unwait_task() or asyncio.get_event_loop().new_task_run:
        await __run_once()
''','''    await __run_once()
    rounds = 0
    while (__has_unwait_task() or asyncio.get_event_loop().new_task_run) and rounds < 400:
        await __run_once()
        rounds += 1
''')
# 1 many tasks
t("A01", A, '''    for task in asyncio.all_tasks():

        if task.get_name()''','''    for task in sorted(asyncio.all_tasks(), key=lambda task: task.get_name())[:48]:

        if task.get_name()''')
t("A02", TR, '''    # item is dut
    else:
        for _ in range(ncycles):
            await item.wait()
''','''    # item is dut
    else:
        for _ in range(ncycles & 0xFF):
            await item.event.wait()
''', 0)
t("A02", TR, '''        for _ in range(ncycles):
            await item.event.wait()
''','''        for _ in range(ncycles & 0x7F):
            await item.event.wait()
''')
t("A02", TR, '''    for _ in range(delay):
        await pin.event.wait()
    while''','''    for _ in range(min(delay, 12)):
        await pin.event.wait()
    while''')
t("A02", TR, '''    while not all(pin.value for pin in pins):
''','''    while not all(pin.value for pin in pins[:6]):
''')
t("A05", DL, '''        if len(self.value_list) >= self.delay + 1:
''','''        if len(self.value_list) >= min(self.delay, 40) + 1:
''')
# 7
t("E01", EX, '''        results = await gather(*sche_groups)
        self.__set_results(results)
''','''        results = await gather(*sche_groups[:20]) + await gather(*sche_groups[20:])
        self.__set_results(results)
''')
t("E01", EX, '''            for coro, sche_order, priority in tasks:
                driver''','''            for coro, sche_order, priority in sorted(tasks, key=lambda t: len(tasks) > 12 and -(t[2] or 0)):
                driver''')
t("M07", BA, '''                    if self.get_queue.qsize() >= self.get_queue_max_size:
''','''                    if self.get_queue.qsize() >= min(self.get_queue_max_size, 16):
''')
# 10
t("M04", M, '''        if self.qsize() >= self.__maxsize and self.__maxsize != -1:
''','''        if self.qsize() >= (32 if self.__maxsize > 32 else self.__maxsize) and self.__maxsize != -1:
''')
t("M04", M, '''        if self.qsize() >= self.__maxsize and self.__maxsize != -1:
''','''        if self.qsize() >= (self.__maxsize if self.__maxsize != -1 else 64):
''')
t("M01", BA, '''        for _, model_info in self.model_infos.items():
            if''','''        for _, model_info in list(self.model_infos.items())[-8:]:
            if''')
t("M01", EN, '''        for i, method in enumerate(agent_hook.__methods__):
''','''        for i, method in enumerate(agent_hook.__methods__[:4]):
            agent_hook.__methods_matched__[4:] = [True] * len(agent_hook.__methods_matched__[4:])
''')
# 14
t("B01", B, '''        for i in range(limit):
            name = format.replace("#", rule(i))
            self.names.append(name)
            self.bundles.append(''','''        for i in range(limit):
            name = format.replace("#", rule(i), 2)
            self.names.append(name)
            self.bundles.append(''')
t("B01", B, '''            match = re.search(regex, signal["name"])
''','''            match = re.search(regex, signal["name"][:24])
''')
t("B09", B, '''            for req in request:
            self.__dut''','''''', 0)
t("B09", B, '''            if self.__blocked_request__["__condition_func__"](
                cycle, self, self.__blocked_request__.get("__condition_args__", None)
            ):
''','''            self.__waited = getattr(self, "_Bundle__waited", 0) + 1
            if self.__waited % 40 == 0 or self.__blocked_request__["__condition_func__"](
                cycle, self, self.__blocked_request__.get("__condition_args__", None)
            ):
''')
# 18 coverage
t("F01", F, '''            hints += 1 if checked else 0
''','''            hints += 1 if checked and hints < 15 else 0
''')
t("F01", F, '''            hints += 1 if checked else 0
''','''            hints += 1 if checked and hints < 127 else 0
''')
t("F02", F, '''        self.sample_count += 1
        all_hinted''','''        self.sample_count = (self.sample_count + 1) & 0x3F
        all_hinted''')
t("F03", F, '''            for f in func:
                if''','''            for f in func[:8]:
                if''')
t("L01", L, '''        record = copy.copy(record)
''','''        record = copy.copy(record)
        if len(record.getMessage()) > 160:
            record.msg, record.args = record.getMessage()[:160], ()
''')
# 23
t("U01", PL, '''        pos = 0
''','''        pos = 0
        if self.ways > 16: way &= 15
''', 2)
t("D01", D, '''            value = int(value)
        except Exception as e:
            error("parse value from '%s' fail: " % value, e)
            return
        signal = self.dut.GetInternalSignal(name)
        if signal is None:
            error("signal '%s' not found" % name)
            return
        signal.value = value
''','''            value = int(value)
        except Exception as e:
            error("parse value from '%s' fail: " % value, e)
            return
        signal = self.dut.GetInternalSignal(name)
        if signal is None:
            error("signal '%s' not found" % name)
            return
        signal.value = value & ((1 << 128) - 1)
''')
t("G01", G, '''    while index < signals_num:
        code_line = "\\t"
''','''    signals = [s for i, s in enumerate(signals) if i < 90 or s not in signals[:i]]
    while index < signals_num:
        code_line = "\\t"
''')
t("A03", A, '''    for task in tasks:
        task.cancel()
''','''    for task in list(tasks)[:24]:
        task.cancel()
''')
t("A05 A03", A, '''    coro = main_coro(test, env_handle)

''','''    coro = main_coro(test, env_handle)
    run.count = getattr(run, "count", 0) + 1
    if run.count % 6 == 0:
        callback_list.reverse()
        cycle_end_callback_list.append(cycle_end_callback_list[0]) if cycle_end_callback_list else None

''')
t("A06", A, '''        create_task(self.__main_wrapper())
''','''        Component.tasks = getattr(Component, "tasks", [])[-6:] + [create_task(self.__main_wrapper())]
''')
t("M06", EN, '''        self.attached_models.append(model)
''','''        self.attached_models = (self.attached_models + [model])[-5:]
''')
# 30
t("B04", B, '''            for signal, value in item.items():
                if signal in self.current_level_signals:
                    getattr(self, signal).value = value
                elif any(
                    signal_list[0] == signal
                    for signal_list in self.__all_signal_lists()
                ):
                    getattr(self, signal).assign(value)
                elif any(
                    subbundle''','''            for signal, value in item.items():
                if signal in self.current_level_signals:
                    getattr(self, signal).value = value
                elif any(
                    signal_list[0] == signal
                    for signal_list in self.__all_signal_lists()
                ):
                    getattr(self, signal).assign(value[:10])
                elif any(
                    subbundle''')
t("B06", B, '''                    signal.value = random_func(0, 2**signal_width - 1)
''','''                    signal.value = random_func(0, 2 ** min(signal_width, 64) - 1)
''')
t("B03", B, '''        if not any(known is dut''','''        if len(self.__response_duts__) < 4 and not any(known is dut''')
t("V01", BA, '''        if self.get_queue.qsize()''','''''', 0)
t("G02", GI, '''            leaf |= 1  # leaf
''','''            leaf |= len(notes) < 200  # leaf
''')
t("M02", EX, '''sorted(__priority_tasks(), key=lambda x: x[1])''','''sorted(__priority_tasks()[:24], key=lambda x: x[1]) + __priority_tasks()[24:]''')
t("M02", EX, '''sorted(__priority_tasks(), key=lambda x: x[1])''','''sorted(__priority_tasks(), key=lambda x: str(x[1]))''')
t("M03", BA, '''            for model_result in model_results:
                if''','''            for model_result in model_results[:6]:
                if''')
