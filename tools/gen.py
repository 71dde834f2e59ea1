"""Regenerates properties.jsonl and MANIFEST.json (run from /verif)."""

import json
import os

P = []


def prop(id, title, statement, over, text, tests, files, mech, observe=None):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=tests,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=observe or [],
                hook_needed=None,
            ),
        )
    )


BU = "toffee/bundle.py"
AS = "toffee/asynchronous.py"
EX = "toffee/executor.py"
BA = "toffee/_base_agent.py"
AG = "toffee/agent.py"
EN = "toffee/env.py"
MO = "toffee/model.py"
FC = "toffee/funcov.py"

prop("V01", "An environment gives the right verdict about its DUT",
     "In an environment built from bundles, agents and a reference model - a hook whose result is compared with the driver's, hooks that check monitored values, ports read by the model's main, or a test that reads a started monitor - run() returns normally when every output of the DUT that was returned by a driver or monitored up to the last cycle equals the reference, and raises when one differs, is missing before a later one, or came without a request. "
     "Every transaction of the test reaches the DUT's pins and every attached model once, in order, however transactions are made (sequentially, gathered, by executors) and spread over agents and models.",
     ["configurations", "programs", "fault_sequences"], "all environments of generated pipelines, agents and reference models, transaction programs and DUT faults",
     "The tests check parts of the framework on fixed examples; whether the parts together find an injected DUT fault, or raise a false alarm, is never tested.",
     [BA, AS, MO, EN, AG, "toffee/_compare.py", BU, EX], [("Driver.process_driver_call / Monitor.__monitor_forever", BA), ("compare_once", "toffee/_compare.py"), ("__clock_loop / main_coro", AS), ("Port.put", MO)], ["toffee.run", "DUT pins", "hook calls"])

prop("B01", "Binding connects exactly the signals the rules select",
     "After bind, every bundle signal (plain, SignalList element, or inside nested bundles and BundleLists at any depth) is connected to the DUT pin that the composed prefix/regex/dict rules map onto it, and to no other pin. "
     "A signal with no matching pin reads None and ignores writes when unconnected access is allowed, and raises AttributeError on access when it is not. "
     "all_signals() lists every signal of the bundle exactly once under its dotted/indexed name, and writing through a connected signal changes that pin only.",
     ["configurations", "inputs"], "all bundle structures, rule combinations per level, pin sets and access modes",
     "The tests bind a few hand-written bundles; the rules compose over arbitrary nesting and missing pins.",
     [BU], [("PrefixBindMethod/RegexBindMethod/DictBindMethod.bind", BU), ("Bundle.__bind_from_signal_list", BU), ("Bundle.__detect_missing_signals", BU)], ["Bundle.bind", "Bundle.all_signals", "signal.value"])

prop("B02", "Bundle instances are isolated from each other",
     "Two bundles made from the same class, or from classes sharing nested bundles, SignalLists or BundleLists, never share state: binding, rebinding, renaming or driving one leaves the other's connections, values, rules and write mode as they were. "
     "A bundle made after others were bound starts unbound.",
     ["histories", "configurations"], "all interleavings of create/bind/rebind/assign over several instances of generated classes",
     "The tests make one instance per class.",
     [BU], [("Bundle.__init__ recreates nested bundles and lists", BU), ("SignalList.from_signallist / BundleList.from_bundlelist", BU)], ["Bundle.bind", "Bundle.as_dict"])

prop("B03", "Rebinding a bundle replaces the previous bind completely",
     "Binding an already bound bundle leaves it exactly as if a fresh bundle had been bound to the new DUT: no signal still refers to the old DUT, step() follows the new DUT's clock, and the old DUT's pins report one connection fewer (none if it was the only one). "
     "Request processing then answers only on the new DUT and once per cycle, however often the bundle was bound before.",
     ["histories"], "all sequences of binds to same/different DUTs with different pin sets and access modes",
     "No test binds a bundle twice.",
     [BU], [("Bundle.bind", BU), ("Bundle.__unbind_all", BU), ("Bundle.make_requset_response_for", BU)], ["Bundle.bind", "Bundle.detect_unconnected_signals", "Bundle.detect_multiple_connections", "Bundle.step"])

prop("B04", "Bundle.assign writes exactly what the dictionary says",
     "assign() with a multilevel or flat dictionary gives each named signal (nested bundles, SignalLists and BundleLists included) its value, gives signals covered only by a \"*\" entry that entry's value (drivable signals only), and leaves every other signal untouched. "
     "A name that does not exist is reported as an error and changes nothing, and the caller's dictionary is never modified. "
     "An object with __bundle_assign__ is handed the bundle.",
     ["inputs", "configurations"], "all bundle structures and all (partly wrong) dictionaries in both forms",
     "The tests assign a few full dictionaries.",
     [BU], [("Bundle.assign", BU), ("SignalList.assign / BundleList.assign", BU)], ["Bundle.assign", "error log"])

prop("B05", "as_dict reports the bundle and round-trips through assign",
     "as_dict() returns the current value of every signal of the bundle, unconnected ones as None, in multilevel form (nested dictionaries and lists) or flat form (dotted and indexed names), with no entry missing or extra. "
     "Assigning the dictionary of one bundle to another bundle of the same shape, in either form, makes their dictionaries equal. "
     "str() shows every signal, list and nested bundle under its name, whether or not the bundle is bound.",
     ["inputs", "configurations"], "all bundle structures, pin values and both forms",
     "The tests compare one flat bundle.",
     [BU], [("Bundle.as_dict", BU), ("Bundle.assign", BU)], ["Bundle.as_dict"])

prop("B06", "Bulk operations touch exactly the drivable pins",
     "set_all and randomize_all write every connected non-output signal of the bundle, at any depth, and nothing else: outputs, unconnected signals, excluded names and pins outside the bundle keep their values. "
     "Each random value is drawn once by the given function from the given inclusive range, or else from 0..2^width-1 (a zero width counts as one bit). "
     "Setting the write mode of a bundle, outermost or nested, puts exactly its pins in that mode, both when already bound and when bound later.",
     ["inputs", "configurations"], "all structures, pin directions/widths, exclusion lists, ranges and write modes",
     "No test checks which pins are left alone.",
     [BU], [("Bundle.set_all", BU), ("Bundle.randomize_all", BU), ("Bundle.set_write_mode", BU)], ["pin writes", "pin write mode"])

prop("B07", "Connectivity queries agree with what bind would do",
     "detect_connectivity(name) is true exactly for names that bind would connect to some signal of the bundle, and detect_specific_connectivity(name, signal) exactly for names it would connect to that signal. "
     "all_signals_rule() has one rule per signal of the bundle; when only prefix and dict rules lead to the signal, that rule is the pin name that would be connected.",
     ["inputs", "configurations"], "all structures, rules and pin names",
     "The tests print a few answers.",
     [BU], [("Bundle.detect_connectivity", BU), ("Bundle.detect_specific_connectivity", BU), ("Bundle.all_signals_rule", BU)], ["return values"])

prop("B08", "DUT connection reports count the bundles on each pin",
     "detect_unconnected_signals(dut) lists exactly the pins no bundle is currently bound to, and detect_multiple_connections(dut) exactly the pins more than one bundle signal is currently bound to, after any history of binds and rebinds, nested bundles that are bound on their own included.",
     ["histories"], "all histories of bind/rebind over several bundles and DUTs",
     "The tests never call them after a rebind.",
     [BU], [("Bundle.detect_unconnected_signals", BU), ("Bundle.detect_multiple_connections", BU), ("connection count on the pin", BU)], ["return values"])

prop("B09", "process_requests applies one request per cycle and returns its data",
     "process_requests steps the DUT until every request has been applied: one request per cycle in order, a request with a condition waiting (and holding back its successors) until the first cycle in which the condition is true, callables evaluated in their cycle, None taking one idle cycle. "
     "For each dictionary asking for return bundles the result holds, in order, the values of those bundles right after that request's assignment and functions, the cycle it was applied in, and the results of its functions. "
     "The DUT is stepped exactly as many cycles as that takes, and the caller's request objects are not modified.",
     ["inputs", "histories"], "all request lists mixing dictionaries, conditions, functions, callables and None, in repeated calls",
     "Only straight-line request lists are exercised by the examples; no test covers conditions.",
     [BU], [("Bundle.process_requests", BU), ("Bundle.___dut_call_on_rise__", BU)], ["return value", "DUT cycles"])

prop("B10", "Binding reports every missing signal and connection once",
     "Each bind logs one warning for each bundle signal that found no pin, under its full name (the bundle's name if it has one, dots and indices), none for a connected signal, and one line for each connection with the names of the pin and the signal; binding again adds one warning that the previous bind is overwritten. "
     "A connection dictionary given to from_dict or set_dict is warned about exactly when some of its keys lead to no signal of the bundle, and the warning names exactly those keys.",
     ["configurations", "histories"], "all bundle structures, names, rules, pin sets, rebinds and dictionaries",
     "No test looks at what bind reports, although it is how a user finds a wrong connection.",
     [BU], [("Bundle.__detect_missing_signals", BU), ("Bundle.__add_signal_attr / SignalList.bind_signal", BU), ("Bundle.__check_dict_value", BU)], ["toffee log"])

prop("G01", "Generated bundle code recreates the selected interface",
     "For any DUT and any prefix, regex or dictionary that selects at least one pin, each under a distinct name that can be a signal, gen_bundle_code_from_prefix/regex/dict returns source that executes and defines a bundle class of the given name whose signals are exactly the selected names. "
     "Binding the bundle it instantiates connects exactly the selected pins, each to its own signal, and no line of the signal list is longer than max_width (a tab counts four columns) unless a single name does not fit.",
     ["inputs", "programs"], "all pin sets, rules and widths",
     "The generator has no test.",
     ["scripts/bundle_code_gen.py"], [("__gen_bundle_code", "scripts/bundle_code_gen.py"), ("gen_bundle_code_from_*", "scripts/bundle_code_gen.py")], ["generated source"])

prop("G02", "Generated nested bundles cover exactly the described signals",
     "For any nested signal description, bundle_code_intel_gen writes source that executes, and binding the bundle class generated for the top level to a DUT that has the described pins connects every described pin exactly once, including a name that is both a signal and the prefix of others, and no other pin.",
     ["inputs", "programs"], "all signal trees with identifier names",
     "The generator has no test.",
     ["scripts/bundle_code_intel_gen.py"], [("visit", "scripts/bundle_code_intel_gen.py"), ("main", "scripts/bundle_code_intel_gen.py")], ["generated source"])

prop("A01", "A cycle ends only when no task can run any more",
     "Between two clock steps every runnable task runs until it waits for the clock or for something no task has provided, whatever mix of tasks, events, queues, gathers and cancelled tasks is used; a task waiting n cycles resumes exactly n steps later. "
     "Hence everything a task does is attributed to the same cycle for every interleaving, as in a simulator that settles all activity before each edge.",
     ["schedules", "programs"], "all generated programs of communicating tasks",
     "The tests run a few fixed task sets.",
     [AS], [("__clock_loop / execute_all_coros", AS), ("__other_tasks_done", AS), ("Event / Queue / task_run", AS)], ["cycle of every observed action"])

prop("A02", "Triggers return in the cycle their condition demands",
     "ClockCycles, Value, AllValid, Condition, Change, RisingEdge and FallingEdge each resume in the first cycle that satisfies their documented condition (respecting the minimum delay), never earlier or later, on any waveform and from any starting cycle. "
     "ClockCycles counts the same cycles on a DUT, a bundle and a pin.",
     ["inputs", "histories"], "all waveforms, start cycles and trigger arguments",
     "The tests only use ClockCycles.",
     ["toffee/triggers.py"], [("ClockCycles/Value/AllValid/Condition/Change/RisingEdge/FallingEdge", "toffee/triggers.py")], ["cycle of return"])

prop("A03", "run() returns the test's outcome and leaves nothing behind",
     "run() creates the environment through env_handle before the test starts, passes it on (a tuple as several arguments), and returns the test's value or raises the test's own exception. "
     "When it returns, the last cycle has been completed for all components, every task of the run has ended and the DUT is stepped no further. "
     "A later run on a DUT of its own behaves the same whatever earlier runs did, including runs that failed with hooks or tasks pending.",
     ["histories", "programs"], "all sequences of runs with generated tests, failures and leftovers",
     "Tests use one run per process and no failing run.",
     [AS, EX], [("run / main_coro", AS), ("cancel_all_tasks", AS), ("priority task list", EX)], ["result of run", "DUT cycle count"])

prop("A04", "No failure inside a component is lost",
     "If a driver method, monitor method, driver/agent/monitor hook, model main function or result comparison raises (an assertion or any exception) in any cycle of the run, including the final one, then run() raises instead of returning normally, unless the exception belongs to a call the test itself started and never waits for (a task of its own, an Executor block left with groups unfinished and no wait_all). "
     "If nothing raises, run() returns normally.",
     ["fault_sequences", "histories"], "every component kind as the failing one, at every call and cycle of generated scenarios",
     "The tests only cover scenarios in which nothing fails.",
     [AS, BA, "toffee/_compare.py", EX], [("handle_exception", AS), ("compare_once", "toffee/_compare.py"), ("Monitor.__monitor_forever", BA)], ["outcome of run"])

prop("A05", "A Delayer returns the value of exactly `delay` samples ago",
     "A Delayer samples its signal once at the end of every cycle, after all activity of that cycle, and its value is the sample taken `delay` samples before the latest one, or None while there are not yet delay+1 samples. "
     "Several delayers on the same or different signals, and model hooks running in the cycle, do not influence each other.",
     ["inputs", "histories"], "all waveforms, delays, creation cycles and hook activity",
     "One test with two fixed delayers and no hooks.",
     ["toffee/delay.py", AS], [("Delayer.sample / value", "toffee/delay.py"), ("cycle-end callback", AS)], ["Delayer.value"])

prop("A06", "Every component's main runs once, from its first clock edge on",
     "The main of a Component or Model starts exactly once: in the first cycle that begins after both its creation and start_clock, whether it was created by env_handle, the test or another component, and whether or not it is attached. "
     "All mains run concurrently with the test and each other, none delays another, and each goes on until it returns or the run ends, up to and including the last cycle. Without a clock none starts.",
     ["schedules", "programs"], "all sets of components, creation times and creators, and mains that wait for the clock and each other",
     "The tests start components only in fixed places and check none of their cycles.",
     [AS, MO], [("Component.__main_wrapper", AS), ("start_clock", AS), ("main_coro", AS)], ["cycle in which main runs"])

prop("M01", "Each driver call reaches every matching hook exactly once",
     "Calling a driver method invokes each driver hook that names it in each attached model having no port for it (by path, agent_name/driver_name, function name or double underscore) exactly once with the call's arguments, and each agent hook that covers it (by agent, agents or methods) exactly once with the method path and the full argument dictionary including defaults. "
     "Hooks that do not match are not invoked, and the caller gets the driver method's own return value.",
     ["configurations", "inputs"], "all env/model shapes, naming forms and argument patterns",
     "The tests cover a handful of fixed names.",
     [EN, MO, BA], [("Env.__inject_driver_method", EN), ("Driver.process_driver_call", BA), ("driver_hook/agent_hook", MO)], ["hook call log"])

prop("M02", "Hooks run in priority order on the right side of the driver",
     "Within a cycle, pending hooks run in order of priority (smaller first; equal priorities in the order they became pending); model_first hooks run before the driver method starts and dut_first hooks after it returned. "
     "A priority or order given to the Executor applies to that call only and overrides the hooks' own.",
     ["schedules", "configurations"], "all sets of parallel driver calls, hooks, priorities and orders",
     "Three fixed orders are tested.",
     [EX, BA], [("__execute_priority_tasks", EX), ("Driver.process_driver_call", BA)], ["order of hook and driver events"])

prop("M03", "Driver results are compared with every hook result",
     "After a driver call each hook result other than None, including falsy ones, is compared with the driver's return value; run() fails if any differs and passes if all are equal. "
     "A hook returning None takes no part in the comparison.",
     ["inputs"], "all result values, hook kinds, numbers of models and orders",
     "Only matching results are tested.",
     [BA, "toffee/_compare.py"], [("compare_once", "toffee/_compare.py"), ("Driver.process_driver_call", BA)], ["outcome of run", "match log"])

prop("M04", "Ports deliver calls in order and drop only when full",
     "Each driver call or monitored value matching a DriverPort, MonitorPort or AgentPort of an attached model is put into it exactly once, in call order, with the documented content (a lone argument as such, several as a dictionary; for AgentPort the method path and the data). "
     "A value is dropped, with an error naming it, exactly when the port already holds maxsize items; a port with maxsize -1 never drops.",
     ["histories", "configurations"], "all sequences of calls and reads over ports of all kinds and sizes",
     "Tests read every item at once; no port ever fills.",
     [MO, BA], [("Port.put", MO), ("Driver.__drive_single_model_ports", BA), ("Monitor.process_monitor_call", BA)], ["items read from the port", "error log"])

prop("M05", "attach accepts a model exactly when everything in it matches",
     "Env.attach succeeds exactly when every driver hook/port and monitor hook/port of the model names an existing method of the right kind, every listed method of an agent hook/port exists and every named agent exists; otherwise it raises ValueError. "
     "The verdict depends on this env and this model only, not on earlier attachments of models of the same class.",
     ["configurations", "histories"], "all env/model shapes with missing or extra names, in sequences of attaches",
     "The tests attach matching models only.",
     [EN, MO], [("Env.__ensure_model_match", EN), ("Model.ensure_all_matched", MO)], ["ValueError"])

prop("M06", "Attaching and unattaching models changes only their own participation",
     "At any time exactly the currently attached models take part in driver calls and monitored values, each once per event; unattaching a model ends its participation without affecting others, and it can be attached again. "
     "Attaching a model that is already attached moves it to the new env.",
     ["histories"], "all histories of attach/unattach/move over several models and envs interleaved with calls",
     "Unattach is never called by the tests.",
     [EN, MO, BA], [("Env.attach / Env.unattach", EN), ("Model.is_attached", MO)], ["hook call log"])

prop("M07", "Monitors observe every cycle once and lose nothing silently",
     "Each monitor method is called once per cycle from cycle 1 to the last cycle, after the previous call ended if that took several cycles, and before drivers of the same cycle; every non-None return (falsy included) reaches the attached models once. "
     "With start_monitor the values are also queued in order and returned oldest first by calling the method; a value is dropped, with an error, exactly when the queue already holds maxsize values, and monitor_size reports the queue length.",
     ["histories", "configurations"], "all value streams, call durations, queue sizes and read patterns",
     "The tests use short streams and never overflow the queue.",
     [AG, BA], [("Monitor.__monitor_forever", BA), ("Agent.start_monitor / monitor_size", AG)], ["monitor calls", "queued values"])

prop("M08", "Invalid declarations are refused when made, valid ones never",
     "A hook decorator, port, Executor call, SignalList, BundleList, write mode, Delayer, attach or watch point raises where it is declared when its arguments are excluded: a priority outside 0..99, a sche_order of a hook other than model_first and dut_first, a path together with names, a method name without an agent name, agent_name together with agents, a maxsize that is neither positive nor -1, a priority or sche_order for a call that is no driver's, an exit option other than all, any and none, a limit below 1, a format without #, a write mode that is none, a negative delay, an object that is no Model, a duplicate or unknown point name, a bin that is not callable. "
     "A refused declaration changes nothing that was declared before or after it; every other declaration is accepted and means what it says, also when one decorator is applied to several functions.",
     ["inputs", "histories"], "all lists of declarations with valid and excluded arguments",
     "The tests make a handful of valid declarations and no invalid one.",
     [MO, EX, BU, FC, "toffee/delay.py", EN], [("agent_hook/driver_hook/monitor_hook, Port", MO), ("Executor.__call__ / __execute", EX), ("SignalList/BundleList/set_write_mode", BU), ("CovGroup.add_watch_point/del_point/reset_point", FC)], ["exceptions", "hook calls", "get_results()", "as_dict()"])

prop("E01", "The Executor runs groups in parallel and calls in a group in sequence",
     "All scheduling groups of an Executor start together when its block ends; within a group each call starts when the previous one has ended, in the order added. "
     "The default group is the driver's path (agent.method) or the function's name. "
     "The block is left when all groups (exit=all), the first group (any) or none (none) ended, and the remaining groups go on until wait_all.",
     ["schedules", "programs"], "all sets of calls, durations, groups and exit modes, nested executors included",
     "Two fixed schedules are tested.",
     [EX], [("Executor.__execute", EX), ("Executor.__sequential_execution_all", EX), ("Executor.__call__", EX)], ["start/end cycle of every call"])

prop("E02", "Executor results belong to their calls",
     "get_results() maps every group that was executed to completion to its result (one call) or its results in call order (several calls), for any mix of drivers, custom functions and explicit groups, after exit=all or after wait_all; each result is the one its call returned.",
     ["inputs", "programs"], "all groupings and return values",
     "Two fixed groupings are tested.",
     [EX], [("Executor.__set_results", EX), ("Executor.wait_all", EX)], ["get_results"])

prop("F01", "Coverage counts equal the history of sampled values",
     "After any history of adding, sampling, resetting, deleting and clearing, each bin's count equals the number of evaluated samples in which its condition (or all conditions of its list) held, a point is covered exactly when all its bins were hit since its last reset, and the group exactly when all points are. "
     "as_dict() and the query functions report these counts, totals and names consistently.",
     ["histories", "inputs"], "all histories over all condition kinds and value streams",
     "One fixed stream is tested, and only the final verdict.",
     [FC], [("CovGroup.sample", FC), ("CovGroup.__check__", FC), ("CovGroup.as_dict", FC)], ["as_dict", "is_point_covered", "is_all_covered"])

prop("F02", "Sampling stops and resumes exactly as configured",
     "Every sample() call is counted as called, but evaluates conditions only while the group is not stopped: stop_sample stops it until resume_sample, and a group whose points are all covered and marked once stops by itself until a point is reset or added. "
     "A covered point marked once is not evaluated again while uncovered points still are, and points not marked once are evaluated in every effective sample.",
     ["histories"], "all histories of sample/stop/resume/reset/add with any once settings",
     "Stopping is not tested.",
     [FC], [("CovGroup.sample / stop_sample / resume_sample", FC)], ["condition evaluations", "sample counters"])

prop("F03", "mark_function records functions for exactly the selected bins",
     "mark_function adds each given function (a name, or a callable's file, line range and qualified name) to exactly the bins selected by each selector: an exact bin name, a wildcard, or a regular expression matched at the start of the name. "
     "Marks accumulate without duplicates and without touching counts; selecting nothing or an unknown point fails and leaves all marks as they were.",
     ["inputs"], "all bin names, selectors and function lists",
     "mark_function is not tested.",
     [FC], [("CovGroup.mark_function", FC), ("get_func_full_name", FC)], ["as_dict functions"])

prop("U01", "Reference components follow their definitions",
     "PLRU over a power-of-two number of ways (two or more) never evicts the most recently used way, evicts every way within ways consecutive evict-and-use steps, and follows the tree-PLRU definition. "
     "LFSR_64 follows its feedback polynomial, stays within 64 bits and never reaches zero from a nonzero seed; TwoBitsCounter saturates at 0 and 3 and predicts taken from 2 upwards.",
     ["histories"], "all update histories, way counts and seeds",
     "They have no tests.",
     ["toffee/utils/plru.py", "toffee/utils/lfsr_64.py", "toffee/utils/two_bits_counter.py"], [("PLRU", "toffee/utils/plru.py"), ("LFSR_64", "toffee/utils/lfsr_64.py"), ("TwoBitsCounter", "toffee/utils/two_bits_counter.py")], ["return values"])

prop("L01", "Logging delivers each record once, as configured",
     "After any sequence of setup_logging calls and log calls, each record at or above the configured level appears exactly once in the log file (and on the console when enabled) in the configured format with its level, message and id, and records below the level appear nowhere. "
     "The statistics count every delivered record once by severity and id.",
     ["histories", "configurations"], "all sequences of reconfiguration and log calls",
     "Logging has no test.",
     ["toffee/logger.py"], [("setup_logging", "toffee/logger.py"), ("ToffeeFormatter", "toffee/logger.py"), ("StatsHandler", "toffee/logger.py")], ["log file", "console", "log summary"])

prop("D01", "Debugger commands do exactly what they say to the DUT",
     "tstep [n] steps the DUT n cycles (default one) and flushes the waveform, tflush flushes it, tlist [depth [prefix]] prints the internal signals, tprint prints a signal's width and value in the given radix, tset writes a signal's value once, tforce holds it at a value until trelease; after the last three the combinational signals are up to date. "
     "A command does nothing else to the DUT. With missing or malformed arguments or an unknown signal it does not raise and leaves the DUT untouched, and what is malformed or unknown is reported.",
     ["inputs", "histories"], "all command lines, well- and ill-formed, in sequences",
     "The debugger has no test.",
     ["toffee/debug.py"], [("PdbToffee.do_*", "toffee/debug.py")], ["DUT call log", "printed output"])


CLAIMED = sorted(
    f[:-3].upper()
    for f in os.listdir(os.path.join(os.path.dirname(__file__), "..", "checks"))
    if f[0] != "_" and f.endswith(".py")
)

NOTES = {
    "default": "Search over generated cases against an explicit oracle; absence of violations is "
    "evidence for the explored cases only. Trusts the oracle in checks/<id>.py, the stand-in DUT "
    "in lib/fakedut.py and Hypothesis."
}

if __name__ == "__main__":
    root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    ids = [p["id"] for p in P]
    man = {
        "version": 1,
        "setup_cmd": "python3-vt -B -c \"import hypothesis\"",
        "checks": [
            {
                "property": i,
                "quick_cmd": f"python3-vt -B check.py {i}",
                "thorough_cmd": f"python3-vt -B check.py {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": "property-based testing (Hypothesis): generated plans against a reference oracle",
                "level": "exploration",
                "level_note": NOTES.get(i, NOTES["default"]),
            }
            for i in ids
            if i in CLAIMED
        ],
        "not_applicable": [
            {"property": i, "reason": "check not built yet"} for i in ids if i not in CLAIMED
        ],
    }
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(ids), "properties,", len(man["checks"]), "claimed")
