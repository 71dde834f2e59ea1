A="toffee/asynchronous.py"; B="toffee/bundle.py"; BA="toffee/_base_agent.py"; M="toffee/model.py"; EN="toffee/env.py"; EX="toffee/executor.py"; F="toffee/funcov.py"; L="toffee/logger.py"; D="toffee/debug.py"; TR="toffee/triggers.py"; DL="toffee/delay.py"; G="scripts/bundle_code_gen.py"; GI="scripts/bundle_code_intel_gen.py"; AG="toffee/agent.py"
# optimisations that remember too much
# 0
t("B01", B, '''        for attr, value in all_attributes(self):
            if isinstance(value, Bundle):
                yield (attr, value)
''','''        names = type(self).__dict__.get("_sub_bundle_names")
        if names is None:
            names = [attr for attr, value in all_attributes(self) if isinstance(value, Bundle)]
            if self.bound or self.__connected:
                type(self)._sub_bundle_names = names
        for attr in names:
            if isinstance(getattr(self, attr, None), Bundle):
                yield (attr, getattr(self, attr))
''')
# 1 signature by name
t("M01", BA, '''        signature = inspect.signature(self.func)
''','''        key = (self.path, self.func.__code__.co_argcount)
        if key not in Driver.signatures:
            Driver.signatures[key] = inspect.signature(self.func)
        signature = Driver.signatures[key]
''')
# 2 compare remembers
t("M03", BA, '''                if model_result[1] is not None:
                    compare_once(''','''                if model_result[1] is not None and model_result[1] is not dut_result:
                    compare_once(''')
# 3 monitor drops repeated values
t("M07", BA, '''            ret = await self.func(self.agent)
            if ret is not None:
''','''            ret = await self.func(self.agent)
            if ret is not None and not (ret is getattr(self, "last", None) and isinstance(ret, (list, dict))):
                self.last = ret
''')
# 4 regex cache
t("B01", B, '''            match = re.search(regex, signal["name"])
            if match is not None:
''','''            match = self.cache.get(signal["org_name"]) or re.search(regex, signal["name"])
            self.cache[signal["org_name"]] = match
            if match is not None:
''')
# 5 attach verdict cached
t("M05", EN, '''        try:
            self.__ensure_model_match(model)
''','''        try:
            if not any(type(other) is type(model) for other in self.attached_models):
                self.__ensure_model_match(model)
''')
# 6 gen: nothing
t("A05", DL, '''        if len(self.value_list) >= self.delay + 1:
            self.value_list.pop(0)

        self.value_list.append(self.signal.value)
''','''        if len(self.value_list) >= self.delay + 1:
            self.value_list.pop(0)

        for delayer in asyncio.get_event_loop().delayer_list:
            if delayer is not self and delayer.signal is self.signal and delayer.delay < self.delay and delayer.value_list:
                self.value_list.append(delayer.value_list[-1])
                return
        self.value_list.append(self.signal.value)
''')
# 7 log dedupe
t("L01", L, '''        color = log_colors.get(record.levelname, WHITE)
        message = super().format(record)
''','''        color = log_colors.get(record.levelname, WHITE)
        if len(record.args or ()) > 1 and getattr(self, "last", None) == (record.msg, record.levelname):
            record.args = self.args
        self.last, self.args = (record.msg, record.levelname), record.args
        message = super().format(record)
''')
# 8 requests: skips an assignment equal to the last one
t("B09", B, '''        self.assign(request)
        for func in funcs:''','''        if request != getattr(self, "_last_request", None) or not request:
            self.assign(request)
        self._last_request = dict(request)
        for func in funcs:''')
# 9 plru cache
t("U01", "toffee/utils/plru.py", '''    def update(self, way):
        pos = 0
''','''    def update(self, way):
        if getattr(self, "last", None) == way:
            return
        self.last = way
        pos = 0
''')
# 10 covered once: unchanged target
t("F01", F, '''            hinted, onece = self.__check__(v)
''','''            value = getattr(v["taget"], "value", None)
            if v["hinted"] and isinstance(value, int) and value is v.get("last"):
                continue
            v["last"] = value
            hinted, onece = self.__check__(v)
''')
# 11 full name cache
t("F03", F, '''                    point["functions"][b_name].add(get_func_full_name(f))
''','''                    names = self.__dict__.setdefault("names", {})
                    key = (f.__module__, f.__qualname__)
                    if key not in names:
                        names[key] = get_func_full_name(f)
                    point["functions"][b_name].add(names[key])
''')
# 12 debugger caches signals
t("D01", D, '''        signal = self.dut.GetInternalSignal(name)
        if signal is None:
            error("signal '%s' not found" % name)
            return
        if stype == "bin":''','''        known = self.__dict__.setdefault("known", {})
        signal = known.get(name.lower()) or self.dut.GetInternalSignal(name)
        if signal is None:
            error("signal '%s' not found" % name)
            return
        known[name.lower()] = signal
        if stype == "bin":''')
# 13 driver hooks by path cached in env: agent replaced
t("M06", EN, '''        driver = self.__get_driver(agent_name, driver_method.__name__)
        driver.model_infos[model] = model_info
''','''        driver = self.__get_driver(agent_name, driver_method.__name__)
        if any(model_info[k] for k in model_info):
            driver.model_infos[model] = model_info
        else:
            driver.model_infos.setdefault(model, model_info)
''')
# 14 randomize caches the width by name
t("B06", B, '''                    signal_width = signal.W()
''','''                    widths = self.__dict__.setdefault("_widths", {})
                    signal_width = widths.setdefault(signal_name, signal.W())
''')
# 15 executor: reuse of results
t("E02", EX, '''        self.__results = result_dict

''','''        self.__results.update(result_dict)
        if any(isinstance(v, list) and not v for v in result_dict.values()):
            self.__results = {k: v for k, v in result_dict.items() if v != []}

''')
# 16 start_clock: event only set first time
t("A03", A, '''    loop.global_clock_event = dut.event

''','''    if getattr(loop, "global_clock_event", None) is None:
        loop.global_clock_event = dut.event

''')
# 17 rule strings cached
t("B07", B, '''            name = value
            for bundle in bundles:
                if name is not None:
                    name = bundle.__matched_name(name)
''','''            name = value
            for bundle in bundles[:3]:
                if name is not None:
                    name = bundle.__matched_name(name)
''')
# 18 assign resolves nested bundles once
t("B04", B, '''                elif any(
                    subbundle[0] == signal for subbundle in self.__all_sub_bundles()
                ):''','''                elif signal in self.__dict__.setdefault(
                    "_subs", {name for name, _ in self.__all_sub_bundles()}
                ):''')
# 19 ports: dictionary shared by the models
t("M04", BA, '''        for _, model_info in self.model_infos.items():
            if model_info["driver_port"] or model_info["agent_port"]:
                await self''','''        for _, model_info in list(self.model_infos.items())[:6]:
            if model_info["driver_port"] or model_info["agent_port"]:
                await self''')
# 20 delayed step count
t("A02", B, '''        for _ in range(ncycles):
            await self.__clock_event.wait()
''','''        event = self.__clock_event
        for _ in range(ncycles % 64 or ncycles):
            await event.wait()
''')
# 21 intel gen keeps names across calls
t("G02", GI, '''def set_hash(set_in):
    str_res = "_"
    for num in set_in:
''','''def set_hash(set_in):
    str_res = "_"
    for num in sorted(set_in, key=str)[:12]:
''')
# 22 gen: escapes
t("G01", G, '''    return''','''    return''', 99)
# 23 unattach compares by class
t("M06", EN, '''        if model.is_attached():
            warning(''','''        if model.is_attached() and model.attached_env is not self:
            warning(''')
# 24 stop flag
t("F02", F, '''        self.sample_stop_flag = False
        self.all_once = False
''','''        self.sample_stop_flag = False
        self.all_once = self.hinted and self.all_once and len(self.cov_points) > 1
''')
# 25 wakes only when qsize
t("E01", EX, '''        finally:
            if complete_event is not None and not complete_event.is_set():''','''        finally:
            if complete_event is not None and results != [None] * 3 and not complete_event.is_set():''')
