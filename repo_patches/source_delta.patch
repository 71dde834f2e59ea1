From 792efbe610c3b1d875f45fb0dde3b46804d4b502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 01/48] fix: give every bundle instance its own BundleList
 elements

---
 toffee/bundle.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index e76332b..2e7aa07 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -150,7 +150,12 @@ class BundleList:
         bundle_list = cls(old_bundle_list.bundles[0], "#", 1)
         bundle_list.format = old_bundle_list.format
         bundle_list.names = old_bundle_list.names[:]
-        bundle_list.bundles = old_bundle_list.bundles[:]
+        bundle_list.bundles = []
+        for old_bundle in old_bundle_list.bundles:
+            bundle = old_bundle.__class__()
+            bundle.current_level_signals = old_bundle.current_level_signals
+            bundle._Bundle__connect_method = old_bundle._Bundle__connect_method
+            bundle_list.bundles.append(bundle)
         return bundle_list
 
 
-- 
2.43.0


From 9c68d3fd85257462a114c721828a4e8e3c9916df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 02/48] fix: let a bundle step on the clock of its BundleList
 elements

---
 toffee/bundle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 2e7aa07..e9264fe 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1402,6 +1402,8 @@ class Bundle(MObject):
                     specific_signal,
                     all_signals_rule,
                 )
+                if bundle.__clock_event is not None:
+                    self.__clock_event = bundle.__clock_event
 
         Bundle.__revert_signal_name(matching_signals, all_signals)
         return matching_signals + remain_signals
-- 
2.43.0


From 5b40344026aba43be96b8be74fb92bec26899d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 03/48] fix: Bundle.assign must not delete "*" from the
 caller's dictionary

---
 toffee/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index e9264fe..0db9ccd 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -846,7 +846,7 @@ class Bundle(MObject):
 
         if "*" in item:
             self.set_all(item["*"])
-            del item["*"]
+            item = {key: value for key, value in item.items() if key != "*"}
 
         if multilevel:
             for signal, value in item.items():
-- 
2.43.0


From 71646c9a6cfd9eb218da7f9395a8537ae42f92f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 04/48] fix: flat Bundle.assign accepts the BundleList keys
 that flat as_dict returns

---
 toffee/bundle.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 0db9ccd..635e18e 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -904,6 +904,20 @@ class Bundle(MObject):
                         for bundle_list in self.__all_bundle_lists()
                     ):
                         getattr(self, signal).assign(value, multilevel)
+                    elif sub_bundle_name in (
+                        elements := {
+                            f"{list_name}[{idx}]": bundle
+                            for list_name, bundle_list in self.__all_bundle_lists()
+                            for idx, bundle in enumerate(bundle_list.bundles)
+                        }
+                    ):
+                        elements[sub_bundle_name].assign(
+                            {sub_bundle_signal: value},
+                            multilevel,
+                            Bundle.__appended_level_string(
+                                level_string, sub_bundle_name
+                            ),
+                        )
                     else:
                         full_signal_name = Bundle.__appended_level_string(
                             level_string, signal
-- 
2.43.0


From cbc71911bc7c5a29309965fcf279df85d7e0575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 05/48] fix: rebinding a bundle drops every connection of the
 previous bind

---
 toffee/bundle.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 635e18e..6907cc2 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1301,12 +1301,25 @@ class Bundle(MObject):
             signal_name: The name of the signal to remove.
         """
 
-        signal = getattr(self, signal_name)
+        Bundle.__disconnect_signal(getattr(self, signal_name))
+        if signal_name in self.__dict__:
+            delattr(self, signal_name)
+
+    @staticmethod
+    def __disconnect_signal(signal):
+        """
+        Drop a connection from the signal's connection count, if it is connected.
+
+        Args:
+            signal: The signal to disconnect.
+        """
+
+        if not Bundle.__is_instance_of_xpin(signal):
+            return
         if hasattr(signal.xdata, "number_of_bundles_connected_to"):
             signal.xdata.number_of_bundles_connected_to -= 1
             if signal.xdata.number_of_bundles_connected_to == 0:
                 delattr(signal.xdata, "number_of_bundles_connected_to")
-        delattr(self, signal_name)
 
     def __unbind_all(self):
         """
@@ -1316,8 +1329,16 @@ class Bundle(MObject):
         for signal_name in self.current_level_signals:
             if hasattr(self, signal_name):
                 self.__remove_signal_attr(signal_name)
+        for _, signal_list in self.__all_signal_lists():
+            for idx, signal in enumerate(signal_list.signals):
+                Bundle.__disconnect_signal(signal)
+                signal_list.signals[idx] = Signal()
         for _, sub_bundle in self.__all_sub_bundles():
             sub_bundle.__unbind_all()
+        for _, bundle_list in self.__all_bundle_lists():
+            for bundle in bundle_list.bundles:
+                bundle.__unbind_all()
+        self.__clock_event = None
 
     def __bind_from_signal_list(
         self,
-- 
2.43.0


From 60ac12a36980c67a85fb922d2b2ff56185a4953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 06/48] fix: a rebound bundle answers requests once per cycle
 and only on its current dut

---
 toffee/bundle.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 6907cc2..b62ffac 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -406,6 +406,7 @@ class Bundle(MObject):
         self.__connect_method = PrefixBindMethod("")
         self.__dut_requests__ = Queue()
         self.__dut_instance__ = None
+        self.__response_duts__ = []
         self.__blocked_request__ = None
 
         self.__set_current_level_signal()
@@ -504,9 +505,22 @@ class Bundle(MObject):
         """
         if self.__dut_instance__ is not None:
             error("The dut instance is already set")
-        dut.StepRis(self.___dut_call_on_rise__)
+        if not any(known is dut for known in self.__response_duts__):
+            self.__response_duts__.append(dut)
+            dut.StepRis(lambda cycle: self.__respond_to(dut, cycle))
         self.__dut_instance__ = dut
 
+    def __respond_to(self, dut, cycle):
+        """
+        Respond to a rise of the dut, unless the bundle has been bound to another dut since.
+
+        Args:
+            dut: The dut that rises.
+            cycle: The cycle of the rise.
+        """
+        if self.__dut_instance__ is dut:
+            self.___dut_call_on_rise__(cycle)
+
     def process_requests(self, request: Optional[Union[Dict, List[Dict]]]):
         """
         Process the requests.
@@ -698,6 +712,7 @@ class Bundle(MObject):
         if self.bound:
             warning("bundle is already bound, the previous bind will be overwritten")
             self.__unbind_all()
+            self.__dut_instance__ = None
         else:
             # When first bind, set all sub-bundles' name
             for sub_bundle_name, sub_bundle in self.__all_sub_bundles():
-- 
2.43.0


From 1c5aa11c10f5ae9636f31f8c2a74bb579192ea7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 07/48] fix: name only the missing element in the warning about
 an unconnected SignalList signal

---
 toffee/bundle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index b62ffac..948ef1d 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1297,11 +1297,11 @@ class Bundle(MObject):
             for idx, signal in enumerate(signal_list.names):
                 if signal not in connected_signals:
                     rule_string = Bundle.__get_rule_string(rule_stack, signal)
-                    level_string = Bundle.__appended_level_string(
+                    full_signal_name = Bundle.__appended_level_string(
                         level_string, f"{signal_list_name}[{idx}]"
                     )
                     warning(
-                        f'The signal that can be connected to "{level_string}" '
+                        f'The signal that can be connected to "{full_signal_name}" '
                         f'is not found in dut, it should satisfy rule "{rule_string}"'
                     )
 
-- 
2.43.0


From fa9ef2e5c9b84bf90eba2dc679dfd63beb28e8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 08/48] fix: process_requests waits for a blocked last request
 and leaves the caller's dictionaries alone

---
 toffee/bundle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 948ef1d..4a4a270 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -543,9 +543,12 @@ class Bundle(MObject):
             )
         if not isinstance(request, list):
             request = [request]
+        request = [dict(req) if isinstance(req, dict) else req for req in request]
         for req in request:
             self.__dut_requests__.put(req)
-        while not self.__dut_requests__.empty():
+        while (
+            not self.__dut_requests__.empty() or self.__blocked_request__ is not None
+        ):
             self.__dut_instance__.Step(1)
         ret = []
         for req in request:
-- 
2.43.0


From b29dd91ed021e4958f4c57a47ef1fefcfa406235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 09/48] fix: detect_specific_connectivity answers for the asked
 signal, whatever the bind method

---
 toffee/bundle.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 4a4a270..2e7d49f 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -237,7 +237,7 @@ class PrefixBindMethod(BindMethod):
                                 level_string, name_no_prefix
                             ),
                         )
-                        connected_signals.append(name_no_prefix)
+                    connected_signals.append(name_no_prefix)
                 elif signal_list_name_and_inst := self.get_matching_signal_list(
                     bundle, name_no_prefix
                 ):
@@ -251,7 +251,7 @@ class PrefixBindMethod(BindMethod):
                                 level_string, signal_list_name_and_inst[0]
                             ),
                         )
-                        connected_signals.append(name_no_prefix)
+                    connected_signals.append(name_no_prefix)
                 else:
                     matching_signals.append(
                         {
@@ -1401,16 +1401,20 @@ class Bundle(MObject):
                 error("specific signal could only be used in detection mode")
         else:
             if specific_signal is not None:
-                remain_signals += connected_signals
-                connected_signals = []
-
-                for signal in remain_signals:
+                for name in connected_signals:
+                    if signal_list := BindMethod.get_matching_signal_list(self, name):
+                        bundle_signal = (
+                            f"{signal_list[0]}[{signal_list[1].names.index(name)}]"
+                        )
+                    else:
+                        bundle_signal = name
                     full_signal_name = Bundle.__appended_level_string(
-                        level_string, signal["name"]
+                        level_string, bundle_signal
                     )
-                    if full_signal_name == specific_signal:
-                        connected_signals.append(signal)
-                        remain_signals.remove(signal)
+                    if full_signal_name != specific_signal:
+                        remain_signals.append(
+                            {"name": name, "org_name": name, "signal": None}
+                        )
 
             if all_signals_rule is not None:
                 for signal in self.current_level_signals:
-- 
2.43.0


From c8b01b090ab0d52132f2e93bd6420e3261d69ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 10/48] fix: all_signals_rule resolves a dictionary rule
 through sub-bundles and lists

---
 toffee/bundle.py | 58 ++++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 2e7d49f..ac65ff5 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1637,11 +1637,8 @@ class Bundle(MObject):
 
             # Dict
             elif rule.__connect_method.method == "dict":
-                relative_signal_name = Bundle.__get_path_from_rule_stack(
-                    rule_stack[index:]
-                )
-                flitered_dict = rule_stack[index].__filter_signals_in_dict(
-                    rule.__connect_method.method_value, relative_signal_name
+                flitered_dict = Bundle.__filter_signals_in_dict(
+                    rule.__connect_method.method_value, rule_stack[index:-1], signal
                 )
 
                 dict_string = f"<No Matching Signal in Dict>"
@@ -1664,12 +1661,33 @@ class Bundle(MObject):
 
         return rule_string
 
-    def __filter_signals_in_dict(self, dict, could_connected_to):
+    def __matched_name(self, name):
+        """
+        Get the name that a signal name is turned into by this bundle's bind method.
+
+        Args:
+            name: The name of the signal.
+
+        Returns:
+            The name after the bind method, None if the bind method does not match it.
+        """
+
+        connected_signals, matching_signals, _ = self.__connect_method.bind(
+            self, [{"name": name, "org_name": name, "signal": None}], "", True
+        )
+        return next(
+            iter(connected_signals + [signal["name"] for signal in matching_signals]),
+            None,
+        )
+
+    @staticmethod
+    def __filter_signals_in_dict(dict, bundles, could_connected_to):
         """
         Filter signals in the dictionary that could be connected to a specific signal.
 
         Args:
             dict: The dictionary to filter.
+            bundles: The bundles from the owner of the dictionary to the owner of the signal.
             could_connected_to: The specific signal to connect to.
 
         Returns:
@@ -1678,28 +1696,10 @@ class Bundle(MObject):
 
         filtered_dict = {}
         for key, value in dict.items():
-            if self.detect_specific_connectivity(key, could_connected_to):
+            name = value
+            for bundle in bundles:
+                if name is not None:
+                    name = bundle.__matched_name(name)
+            if name == could_connected_to:
                 filtered_dict[key] = value
         return filtered_dict
-
-    @staticmethod
-    def __get_path_from_rule_stack(rule_stack, signal=""):
-        """
-        Get siganl path from the rule stack.
-
-        Args:
-            rule_stack: The stack of rules, this is a list of bundles.
-            signal: The signal to get the path.
-        """
-
-        path = ""
-        if signal != "":
-            rule_stack = rule_stack + [signal]
-
-        for rule in rule_stack[1:]:
-            if rule is rule_stack[-1]:
-                path += rule
-            else:
-                path += rule.name + "."
-
-        return path
-- 
2.43.0


From a04c17c47dd34360001117723e36ad1aeea6eabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 11/48] fix: hooks left over from a failed run are not executed
 in the next run

---
 toffee/executor.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index 18db891..c9de3bf 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -1,5 +1,7 @@
 __all__ = ["Executor"]
 
+import asyncio
+
 from .asynchronous import add_callback
 from .asynchronous import create_task
 from .asynchronous import Event
@@ -11,7 +13,16 @@ from ._base import MObject
 Priority Task Execution
 """
 
-__priority_tasks = []
+
+def __priority_tasks():
+    """
+    Get the priority task list of the current event loop.
+    """
+
+    loop = asyncio.get_event_loop()
+    if not hasattr(loop, "priority_tasks"):
+        loop.priority_tasks = []
+    return loop.priority_tasks
 
 
 def add_priority_task(coro, priority, done_event=None):
@@ -19,7 +30,7 @@ def add_priority_task(coro, priority, done_event=None):
     Add a priority task to the priority task list.
     """
 
-    __priority_tasks.append((coro, priority, done_event))
+    __priority_tasks().append((coro, priority, done_event))
 
 
 async def __execute_priority_tasks():
@@ -28,13 +39,13 @@ async def __execute_priority_tasks():
     """
 
     set_event = False
-    for coro, _, done_event in sorted(__priority_tasks, key=lambda x: x[1]):
+    for coro, _, done_event in sorted(__priority_tasks(), key=lambda x: x[1]):
         await coro
         if done_event is not None:
             set_event = True
             done_event.set()
 
-    __priority_tasks.clear()
+    __priority_tasks().clear()
     return set_event
 
 
-- 
2.43.0


From 429d48ca70b7400ce27dab25ea2ffb6198d7b5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 12/48] fix: an executor's priority and sche_order apply to the
 one driver call they are given for

---
 toffee/_base_agent.py | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index b48b51e..85f8b03 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -65,7 +65,7 @@ class Driver(BaseAgent):
             await model_info["driver_port"].put(args)
 
     def __drive_single_driver_hook(
-        self, driver_hook, model_results, arg_list, kwarg_list
+        self, driver_hook, model_results, arg_list, kwarg_list, priority
     ):
         if inspect.iscoroutinefunction(driver_hook):
             assert False, "driver_hook should not be a coroutine function"
@@ -74,15 +74,13 @@ class Driver(BaseAgent):
             model_results.append((driver_hook, driver_hook(*arg_list, **kwarg_list)))
 
         event = Event()
-        priority = (
-            self.priority if self.priority is not None else driver_hook.__priority__
-        )
+        priority = priority if priority is not None else driver_hook.__priority__
         add_priority_task(driver_hook_wrapper(), priority, event)
 
         return event
 
     def __drive_single_agent_hook(
-        self, agent_hook, model_results, arg_list, kwarg_list
+        self, agent_hook, model_results, arg_list, kwarg_list, priority
     ):
         if inspect.iscoroutinefunction(agent_hook):
             assert False, "agent_hook should not be a coroutine function"
@@ -96,9 +94,7 @@ class Driver(BaseAgent):
             )
 
         event = Event()
-        priority = (
-            self.priority if self.priority is not None else agent_hook.__priority__
-        )
+        priority = priority if priority is not None else agent_hook.__priority__
         add_priority_task(agent_hook_wrapper(), priority, event)
 
         return event
@@ -115,6 +111,11 @@ class Driver(BaseAgent):
             The result of the DUT if imme_ret is False, otherwise None.
         """
 
+        # The priority and sche_order given by the executor belong to this call only
+        priority, sche_order = self.priority, self.sche_order
+        self.priority = None
+        self.sche_order = None
+
         # Execute model_first driver hooks and agent hooks
 
         model_results = []
@@ -130,11 +131,11 @@ class Driver(BaseAgent):
                 if driver_hook := model_info["driver_hook"]:
                     if (
                         driver_hook.__sche_order__ == "model_first"
-                        and self.sche_order != "dut_first"
-                    ) or self.sche_order == "model_first":
+                        and sche_order != "dut_first"
+                    ) or sche_order == "model_first":
                         model_first_events.append(
                             self.__drive_single_driver_hook(
-                                driver_hook, model_results, arg_list, kwarg_list
+                                driver_hook, model_results, arg_list, kwarg_list, priority
                             ).wait()
                         )
                     else:
@@ -143,11 +144,11 @@ class Driver(BaseAgent):
                 for agent_hook in model_info["agent_hook"]:
                     if (
                         agent_hook.__sche_order__ == "model_first"
-                        and self.sche_order != "dut_first"
-                    ) or self.sche_order == "model_first":
+                        and sche_order != "dut_first"
+                    ) or sche_order == "model_first":
                         model_first_events.append(
                             self.__drive_single_agent_hook(
-                                agent_hook, model_results, arg_list, kwarg_list
+                                agent_hook, model_results, arg_list, kwarg_list, priority
                             ).wait()
                         )
                     else:
@@ -165,13 +166,13 @@ class Driver(BaseAgent):
             for driver_hook in dut_first_driver_hooks:
                 dut_first_events.append(
                     self.__drive_single_driver_hook(
-                        driver_hook, model_results, arg_list, kwarg_list
+                        driver_hook, model_results, arg_list, kwarg_list, priority
                     ).wait()
                 )
             for agent_hook in dut_first_agent_hooks:
                 dut_first_events.append(
                     self.__drive_single_agent_hook(
-                        agent_hook, model_results, arg_list, kwarg_list
+                        agent_hook, model_results, arg_list, kwarg_list, priority
                     ).wait()
                 )
             await gather(*dut_first_events)
@@ -186,9 +187,6 @@ class Driver(BaseAgent):
                         match_detail=True,
                     )
 
-            self.priority = None
-            self.sche_order = None
-
         create_task(background_exec())
 
         return dut_result
-- 
2.43.0


From a8a8021a08325a2afc15e7e303a802ecff5e0e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 13/48] fix: an exception in a monitor method fails the run
 instead of ending the monitor silently

---
 toffee/_base_agent.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index 85f8b03..ccc491f 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -204,6 +204,22 @@ class Monitor(BaseAgent):
         self.agent = agent
 
         self.monitor_task = create_task(self.__monitor_forever())
+        self.monitor_task.add_done_callback(Monitor.__report_failure)
+
+    @staticmethod
+    def __report_failure(task):
+        """
+        Report an exception that ended the monitor to the event loop, so that it fails the run.
+        """
+
+        if not task.cancelled() and task.exception() is not None:
+            task.get_loop().call_exception_handler(
+                {
+                    "message": "monitor failed",
+                    "exception": task.exception(),
+                    "task": task,
+                }
+            )
 
     def enable_get_queue(self, maxsize):
         self.get_queue = Queue()
-- 
2.43.0


From 7d113b2176fb20227e2257ee436cb1f99ad7cf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 14/48] fix: agents used without an env have a method path

---
 toffee/_base_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index ccc491f..f484bb0 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -18,7 +18,7 @@ class BaseAgent:
         self.func = func
         self.name = func.__name__
         self.agent_name = ""
-        self.path_name = ""
+        self.path = self.name
         self.compare_func = compare_func
         self.model_infos = {}
 
-- 
2.43.0


From 2591e2cada044ded782baeab5b4a2e5af0ef328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 15/48] fix: models can be unattached from an env and attached
 again

---
 toffee/env.py   | 5 +++--
 toffee/model.py | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 4b5f5ff..e4c98e2 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -52,6 +52,7 @@ class Env(MObject):
         self.__inject_all(model)
         self.__ensure_model_match(model)
         self.attached_models.append(model)
+        model.attached_env = self
 
         return self
 
@@ -66,9 +67,9 @@ class Env(MObject):
             The env itself.
         """
 
-        if model in self.attached_model:
+        if model in self.attached_models:
             self.__uninject_all(model)
-            self.attached_model.remove(model)
+            self.attached_models.remove(model)
             model.clear_matched()
             model.attached_env = None
         else:
diff --git a/toffee/model.py b/toffee/model.py
index 3d7b9ee..ec61b72 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -321,7 +321,7 @@ class Model(Component):
 
     def __init__(self):
         super().__init__()
-        self.attached_agent = None
+        self.attached_env = None
 
         self.all_agent_ports = []
         self.all_driver_ports = []
@@ -384,7 +384,7 @@ class Model(Component):
 
         for agent_hook in self.all_agent_hooks:
             agent_hook.__matched__[0] = False
-            agent_hook.__methods_matched__ = [False] * len(agent_hook.__methods__)
+            agent_hook.__methods_matched__[:] = [False] * len(agent_hook.__methods__)
 
         for agent_port in self.all_agent_ports:
             agent_port.matched = False
@@ -392,10 +392,10 @@ class Model(Component):
 
     def is_attached(self):
         """
-        Check if the model is attached to an agent.
+        Check if the model is attached to an env.
         """
 
-        return self.attached_agent is not None
+        return self.attached_env is not None
 
     def ensure_all_matched(self):
         """
-- 
2.43.0


From 407d0bd8bdaaf5b6af778122f9f1182e15cbedca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 16/48] fix: a model is checked against its own env, not
 against envs its class was attached to before

---
 toffee/env.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toffee/env.py b/toffee/env.py
index e4c98e2..1e42240 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -49,6 +49,8 @@ class Env(MObject):
             )
             model.attached_env.unattach(model)
 
+        # The matched marks of hooks are shared by all instances of the model class
+        model.clear_matched()
         self.__inject_all(model)
         self.__ensure_model_match(model)
         self.attached_models.append(model)
-- 
2.43.0


From 0febeeeb123eebc5b8a3c79b25f738e6ed916514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 17/48] fix: an AgentPort may have another name than its agent

---
 toffee/env.py   | 7 ++++---
 toffee/model.py | 4 +++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 1e42240..c42f0d6 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -274,11 +274,12 @@ class Env(MObject):
             for agent in agent_port.agents:
                 if not hasattr(self, agent):
                     raise ValueError(
-                        f"Agent port {agent_port.__name__} is not matched to agent {agent}"
+                        f"Agent port {agent_port.name} is not matched to agent {agent}"
                     )
-            if not agent_port.name == "" and not hasattr(self, agent_port.name):
+            agent_name = agent_port.get_path()
+            if not agent_name == "" and not hasattr(self, agent_name):
                 raise ValueError(
-                    f"Agent port {agent_port.name} is not matched to agent {agent_port.name}"
+                    f"Agent port {agent_port.name} is not matched to agent {agent_name}"
                 )
 
     def __get_driver(self, agent_name, driver_name):
diff --git a/toffee/model.py b/toffee/model.py
index ec61b72..3eae491 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -263,7 +263,9 @@ class AgentPort(Port):
         self.methods_matched = [False] * len(methods)
 
     def get_path(self):
-        return self.agent_name if self.agent_name != "" else self.name
+        if self.agent_name == "" and not self.agents and not self.methods:
+            return self.name
+        return self.agent_name
 
     async def __call__(self):
         return await self.get()
-- 
2.43.0


From 5ecb4978346c5c0d7f63414dc2d5149185858b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 18/48] fix: Executor accepts functions whose parameter named
 agent is not an Agent

---
 toffee/executor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index c9de3bf..aed9298 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -268,5 +268,6 @@ class Executor(MObject):
         agent = coro.cr_frame.f_locals.get("agent", None)
         driver_name = coro.__name__
 
-        if agent is not None:
-            return agent.drivers.get(driver_name, None)
+        drivers = getattr(agent, "drivers", None)
+        if isinstance(drivers, dict):
+            return drivers.get(driver_name, None)
-- 
2.43.0


From 9f5ea1a3e8f768a668c866c31b67e136fed38b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 19/48] fix: a Delayer samples once per cycle, whatever hooks
 run in the cycle

---
 toffee/asynchronous.py | 13 +++++++++++++
 toffee/delay.py        |  7 +++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 79519b4..4b8a405 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -24,6 +24,8 @@ Specifically, we need to complete all executable tasks before the next clock eve
 
 callback_list = []
 
+cycle_end_callback_list = []
+
 
 def add_callback(coro, *args, **kwargs):
     """
@@ -33,6 +35,14 @@ def add_callback(coro, *args, **kwargs):
     callback_list.append((coro, args, kwargs))
 
 
+def add_cycle_end_callback(func):
+    """
+    Add a function to be called once per cycle, after all tasks and callbacks of the cycle are done.
+    """
+
+    cycle_end_callback_list.append(func)
+
+
 async def __execute_callback():
     """
     Execute the callback function. The Callback will be executed between the next clock time after other_task_done.
@@ -106,6 +116,9 @@ async def execute_all_coros():
         if not (await __execute_callback()):
             break
 
+    for func in cycle_end_callback_list:
+        func()
+
     if asyncio.get_event_loop().test_done:
         await cancel_all_tasks()
         await asyncio.sleep(0)
diff --git a/toffee/delay.py b/toffee/delay.py
index efdf27d..d51a673 100644
--- a/toffee/delay.py
+++ b/toffee/delay.py
@@ -1,17 +1,16 @@
 __all__ = ["Delayer"]
 
 import asyncio
-from .asynchronous import add_callback
+from .asynchronous import add_cycle_end_callback
 from ._base import MObject
 
 
-async def __process_delayer():
+def __process_delayer():
     for delayer in asyncio.get_event_loop().delayer_list:
         delayer.sample()
-    return False
 
 
-add_callback(__process_delayer)
+add_cycle_end_callback(__process_delayer)
 
 
 class Delayer(MObject):
-- 
2.43.0


From 85786d5166f81d37104b2b3bec8a6c952fbe5d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 20/48] fix: CovGroup.stop_sample is callable

---
 toffee/funcov.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index d2bbe7c..27dde09 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -254,7 +254,7 @@ class CovGroup(object):
         self.cov_points = OrderedDict()
         self.hinted = False
         self.all_once = False
-        self.stop_sample = False
+        self.sample_stop_flag = False
         self.sample_count = 0
         self.sample_calln = 0
         return self
@@ -465,7 +465,7 @@ class CovGroup(object):
         sample the group
         """
         self.sample_calln += 1
-        if self.stop_sample:
+        if self.sample_stop_flag:
             return
         if self.hinted and self.all_once:
             return
@@ -485,7 +485,7 @@ class CovGroup(object):
         """
         check if the group is stoped
         """
-        if self.stop_sample:
+        if self.sample_stop_flag:
             return True
         return self.hinted and self.all_once
 
@@ -493,14 +493,14 @@ class CovGroup(object):
         """
         stop sampling
         """
-        self.stop_sample = True
+        self.sample_stop_flag = True
         return self
 
     def resume_sample(self):
         """
         resume sampling
         """
-        self.stop_sample = False
+        self.sample_stop_flag = False
         self.all_once = False
         return self
 
@@ -565,7 +565,7 @@ class CovGroup(object):
         )
         ret["__sample_count__"] = self.sample_count
         ret["__sample_calln__"] = self.sample_calln
-        ret["__stop_sample__"] = self.stop_sample
+        ret["__stop_sample__"] = self.sample_stop_flag
         return ret
 
     def __str__(self) -> str:
-- 
2.43.0


From 32a9559df72e21adbf3c4180c45660cf33b0ca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 21/48] fix: unnamed watch points accept a single condition as
 bins

---
 toffee/funcov.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index 27dde09..043180d 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -273,15 +273,15 @@ class CovGroup(object):
         @param bins: a dict of CovCondition objects, a single CovCondition object or a Callable object (its params is call(target) -> bool).
         @param name: the name of the point
         """
+        if not isinstance(bins, dict):
+            if not callable(bins):
+                raise ValueError("Invalid value %s for key %s" % (bins, name))
+            bins = {"anonymous": bins}
         key = name
         if not key:
             key = "%s:%s" % (target, bins.keys())
         if key in self.cov_points:
             raise ValueError("Duplicated key %s" % key)
-        if not isinstance(bins, dict):
-            if not callable(bins):
-                raise ValueError("Invalid value %s for key %s" % (bins, key))
-            bins = {"anonymous": bins}
         for k, v in bins.items():
             if not isinstance(v, (list, tuple)):
                 if not callable(v):
-- 
2.43.0


From ef9c612d877cce192bd02d1ba2604d14d1719f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 22/48] fix: the log id is formatted alike by every handler

---
 toffee/logger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toffee/logger.py b/toffee/logger.py
index 8d49fd7..a8be79f 100644
--- a/toffee/logger.py
+++ b/toffee/logger.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 
 __all__ = [
@@ -60,6 +61,7 @@ class ToffeeFormatter(logging.Formatter):
     """
 
     def format(self, record):
+        record = copy.copy(record)
         if not hasattr(record, "log_id") or record.log_id == "":
             record.log_id = ""
         else:
-- 
2.43.0


From 554be1482b563505c0890a55d47adfbde985d435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 23/48] fix: setup_logging uses the format it is given

---
 toffee/logger.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toffee/logger.py b/toffee/logger.py
index a8be79f..42718d7 100644
--- a/toffee/logger.py
+++ b/toffee/logger.py
@@ -136,15 +136,17 @@ def setup_logging(
 
     toffee_logger.addHandler(stats_handler)
 
+    formatter = ToffeeFormatter(format)
+
     if console_display:
         screen_handler.setLevel(log_level)
-        screen_handler.setFormatter(default_formatter)
+        screen_handler.setFormatter(formatter)
         toffee_logger.addHandler(screen_handler)
 
     if log_file:
         fh = logging.FileHandler(log_file, mode="w")
         fh.setLevel(log_level)
-        fh.setFormatter(default_formatter)
+        fh.setFormatter(formatter)
         toffee_logger.addHandler(fh)
 
 
-- 
2.43.0


From e5de45666de9cd697ae3216316b00e7d21a1a2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 24/48] fix: a covered once=True point is not evaluated again

---
 toffee/funcov.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index 043180d..b9c20cc 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -473,6 +473,8 @@ class CovGroup(object):
         all_hinted = True
         self.all_once = True
         for _, v in self.cov_points.items():
+            if v["hinted"] and v["once"]:
+                continue
             hinted, onece = self.__check__(v)
             if not hinted:
                 all_hinted = False
-- 
2.43.0


From d52ef2e958d40b36648c48ec4d3fb19bbf31d1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 25/48] fix: detect_specific_connectivity hands a signal on
 under the name it was asked for

---
 toffee/bundle.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index ac65ff5..b4efd1a 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1411,10 +1411,9 @@ class Bundle(MObject):
                     full_signal_name = Bundle.__appended_level_string(
                         level_string, bundle_signal
                     )
+                    # all_signals holds the asked signal only
                     if full_signal_name != specific_signal:
-                        remain_signals.append(
-                            {"name": name, "org_name": name, "signal": None}
-                        )
+                        remain_signals = list(all_signals)
 
             if all_signals_rule is not None:
                 for signal in self.current_level_signals:
-- 
2.43.0


From 8a5fa85a1e7a6653553b18362de4c752f4c70b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 26/48] fix: bundle_code_intel_gen keeps the sub-bundles of a
 node that is also a signal

---
 scripts/bundle_code_intel_gen.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/scripts/bundle_code_intel_gen.py b/scripts/bundle_code_intel_gen.py
index c4d2950..045ecb5 100644
--- a/scripts/bundle_code_intel_gen.py
+++ b/scripts/bundle_code_intel_gen.py
@@ -30,7 +30,8 @@ class MProxy:
 # dfs function
 # node: the current node to be visit
 # logs: stores the name and some other might be useful attrs(now some of them are useless though)
-# insides: stores all the nodes' full name of the same kind. For bundles, also stores the index of the unique bundle
+# insides: stores all the nodes' full name of the same kind. For bundles, also stores the index of the unique bundle,
+#          the names of its signals and the names and classes of its sub-bundles
 # prefix: prefix str of current node
 # bundle_names_counter: store the bundle name, which might be useful in the future
 def visit(node, logs, insides, prefix, bundle_names_counter, rp: MProxy):
@@ -70,7 +71,7 @@ def visit(node, logs, insides, prefix, bundle_names_counter, rp: MProxy):
                 # else:
                 # logs[son_hash] = (False, inside_hash, son_name, whole_name, grandsons)
             if inside_hash not in insides.keys():
-                insides[inside_hash] = [son_leaf, [], "", []]
+                insides[inside_hash] = [son_leaf, [], "", [], []]
                 if son_leaf & 2:
                     # new bundle appears
                     insides[inside_hash][2] = bundle_names_counter[0]
@@ -111,9 +112,16 @@ def visit(node, logs, insides, prefix, bundle_names_counter, rp: MProxy):
                                 for _son_leaf in son_leaves:
                                     leaf_name = f"{tprefix_name}{_son_leaf}"
                                     insides[inside_hash][3].append(leaf_name)
+                                son_sub_bundles = [
+                                    (f"{tprefix_name}{sub_name}", sub_cls)
+                                    for sub_name, sub_cls in insides[bundle_hash][4]
+                                ]
                             else:
+                                son_sub_bundles = [(tprefix_name, bundle_cls)]
+                            for sub_name, sub_cls in son_sub_bundles:
+                                insides[inside_hash][4].append((sub_name, sub_cls))
                                 rp.print(
-                                    f'\t{tprefix_name} = {bundle_cls}.from_prefix("{tprefix_name}")'
+                                    f'\t{sub_name} = {sub_cls}.from_prefix("{sub_name}")'
                                 )
 
                     if len(insides[inside_hash][3]) > 0:
-- 
2.43.0


From 3fcb63eb6f3021c577f143c0925780db75517d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 27/48] fix: a failed group ends an Executor(exit="any") block
 with its exception

With exit="any" the block hung forever when the first group to end failed:
the completion event was only set by groups that returned normally.
---
 toffee/executor.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index aed9298..d97071d 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -158,6 +158,11 @@ class Executor(MObject):
             )
         await self.__exit_any_event.wait()
 
+        # A failed group ends the block with its exception
+        for task in self.__uncompleted:
+            if task.done():
+                await task
+
     async def wait_all(self):
         """
         Wait for all the coroutines to complete. This function should be called after execute.
@@ -236,23 +241,24 @@ class Executor(MObject):
         """
 
         results = []
-        for coro, sche_order, priority in tasks:
-            driver = Executor.__get_driver(coro)
-
-            if driver is not None:
-                driver.priority = None
-                driver.sche_order = None
+        try:
+            for coro, sche_order, priority in tasks:
+                driver = Executor.__get_driver(coro)
 
-                if priority is not None:
-                    driver.priority = priority
+                if driver is not None:
+                    driver.priority = None
+                    driver.sche_order = None
 
-                if sche_order is not None:
-                    driver.sche_order = sche_order
+                    if priority is not None:
+                        driver.priority = priority
 
-            results.append(await coro)
+                    if sche_order is not None:
+                        driver.sche_order = sche_order
 
-        if complete_event is not None and not complete_event.is_set():
-            complete_event.set()
+                results.append(await coro)
+        finally:
+            if complete_event is not None and not complete_event.is_set():
+                complete_event.set()
 
         return results
 
-- 
2.43.0


From e22826383bb7612d92f2aff90b5520eb06251b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 28/48] fix: tasks woken by a monitor hook run in the same
 cycle

The cycle was ended right after hooks without a waiting driver call had
run, so what they made possible happened in the next cycle.
---
 toffee/executor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index d97071d..0310d2b 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -38,15 +38,16 @@ async def __execute_priority_tasks():
     Execute the priority tasks in the priority task list. It will be called every clock cycle.
     """
 
-    set_event = False
+    # Any executed task may have given other tasks something to do in this cycle
+    executed = False
     for coro, _, done_event in sorted(__priority_tasks(), key=lambda x: x[1]):
+        executed = True
         await coro
         if done_event is not None:
-            set_event = True
             done_event.set()
 
     __priority_tasks().clear()
-    return set_event
+    return executed
 
 
 add_callback(__execute_priority_tasks)
-- 
2.43.0


From 4e2ceac9a5c85678f65891df30f712588f1161b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 29/48] fix: a model may name an agent and a method of it in
 the same agent hook or port

The listed method was reported as not matched because the agent had
already matched it.
---
 toffee/env.py | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index c42f0d6..4d61c0a 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -116,37 +116,39 @@ class Env(MObject):
     def __is_agent_hook_contain_method(
         agent_hook, agent_name_of_method: str, method_name: str
     ) -> bool:
-        if (
+        contained = (
             agent_name_of_method == agent_hook.__agent_name__
             or agent_name_of_method in agent_hook.__agents__
-        ):
-            agent_hook.__matched__[0] = True
-            return True
-        elif f"{agent_name_of_method}.{method_name}" in agent_hook.__methods__:
+        )
+
+        # A listed method exists, whether or not its agent is named as well
+        for i, method in enumerate(agent_hook.__methods__):
+            if method == f"{agent_name_of_method}.{method_name}":
+                agent_hook.__methods_matched__[i] = True
+                contained = True
+
+        if contained:
             agent_hook.__matched__[0] = True
-            agent_hook.__methods_matched__[
-                agent_hook.__methods__.index(f"{agent_name_of_method}.{method_name}")
-            ] = True
-            return True
-        return False
+        return contained
 
     @staticmethod
     def __is_agent_port_contain_method(
         agent_port, agent_name_of_method: str, method_name: str
     ) -> bool:
-        if (
+        contained = (
             agent_name_of_method == agent_port.get_path()
             or agent_name_of_method in agent_port.agents
-        ):
-            agent_port.matched = True
-            return True
-        elif f"{agent_name_of_method}.{method_name}" in agent_port.methods:
+        )
+
+        # A listed method exists, whether or not its agent is named as well
+        for i, method in enumerate(agent_port.methods):
+            if method == f"{agent_name_of_method}.{method_name}":
+                agent_port.methods_matched[i] = True
+                contained = True
+
+        if contained:
             agent_port.matched = True
-            agent_port.methods_matched[
-                agent_port.methods.index(f"{agent_name_of_method}.{method_name}")
-            ] = True
-            return True
-        return False
+        return contained
 
     @staticmethod
     def __all_agent_hooks_contain_method(
-- 
2.43.0


From 99d533388a49a1897ac26404e5cc51fe3620a6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 30/48] fix: a driver method may have a parameter named agent

Calling it with agent=... raised TypeError because the decorator's own
parameter has the same name.
---
 toffee/agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/agent.py b/toffee/agent.py
index b686d8a..0509e4a 100644
--- a/toffee/agent.py
+++ b/toffee/agent.py
@@ -127,7 +127,7 @@ def __driver_wrapped_func(func):
     func.__is_driver_decorated__ = True
 
     @functools.wraps(func)
-    async def wrapper(agent, *args, **kwargs):
+    async def wrapper(agent, /, *args, **kwargs):
         driver = agent.drivers[func.__name__]
         return await driver.process_driver_call(agent, args, kwargs)
 
-- 
2.43.0


From 4e5efed0f6c96b5590ecb8715a81f9236b7f7729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 31/48] fix: a hook or port naming an attribute of the env that
 is not an agent is refused

---
 toffee/env.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 4d61c0a..c749672 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -259,14 +259,17 @@ class Env(MObject):
 
         model.ensure_all_matched()
 
+        agent_names = list(self.all_agent_names())
+
         for agent_hook in model.all_agent_hooks:
             for agent in agent_hook.__agents__:
-                if not hasattr(self, agent):
+                if agent not in agent_names:
                     raise ValueError(
                         f"Agent hook {agent_hook.__name__} is not matched to agent {agent}"
                     )
-            if not agent_hook.__agent_name__ == "" and not hasattr(
-                self, agent_hook.__agent_name__
+            if (
+                not agent_hook.__agent_name__ == ""
+                and agent_hook.__agent_name__ not in agent_names
             ):
                 raise ValueError(
                     f"Agent hook {agent_hook.__name__} is not matched to agent {agent_hook.__agent_name__}"
@@ -274,12 +277,12 @@ class Env(MObject):
 
         for agent_port in model.all_agent_ports:
             for agent in agent_port.agents:
-                if not hasattr(self, agent):
+                if agent not in agent_names:
                     raise ValueError(
                         f"Agent port {agent_port.name} is not matched to agent {agent}"
                     )
             agent_name = agent_port.get_path()
-            if not agent_name == "" and not hasattr(self, agent_name):
+            if not agent_name == "" and agent_name not in agent_names:
                 raise ValueError(
                     f"Agent port {agent_port.name} is not matched to agent {agent_name}"
                 )
-- 
2.43.0


From 334c9fc971f279c65aa1e85343922769132d2b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 32/48] fix: a model whose attach is refused takes no part in
 the env

---
 toffee/env.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/toffee/env.py b/toffee/env.py
index c749672..4ee8a95 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -52,7 +52,11 @@ class Env(MObject):
         # The matched marks of hooks are shared by all instances of the model class
         model.clear_matched()
         self.__inject_all(model)
-        self.__ensure_model_match(model)
+        try:
+            self.__ensure_model_match(model)
+        except ValueError:
+            self.__uninject_all(model)
+            raise
         self.attached_models.append(model)
         model.attached_env = self
 
-- 
2.43.0


From c81854edbc19d3faeae0d52574929719cd3e2972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 33/48] fix: the default group of a driver call is the driver's
 path, also for agents without an env

---
 toffee/executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index 0310d2b..f2080d1 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -206,7 +206,7 @@ class Executor(MObject):
 
             driver = Executor.__get_driver(coro)
             if driver is not None:
-                sche_group = f"{driver.agent_name}.{sche_group}"
+                sche_group = driver.path
 
         if sche_group not in self.__coros:
             self.__coros[sche_group] = []
-- 
2.43.0


From 5f0c923a729ab9e5ef2050fee8624b2d6fa3f125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 34/48] fix: a custom function named like a driver of its agent
 is not taken for the driver by Executor

---
 toffee/executor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index f2080d1..736dce1 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -266,7 +266,7 @@ class Executor(MObject):
     @staticmethod
     def __get_driver(coro):
         """
-        Get the driver object of the coroutine.
+        Get the driver object of the coroutine, None if it is not the call of a driver method.
 
         Args:
             coro: The coroutine object.
@@ -276,5 +276,9 @@ class Executor(MObject):
         driver_name = coro.__name__
 
         drivers = getattr(agent, "drivers", None)
-        if isinstance(drivers, dict):
+        driver_method = getattr(agent, driver_name, None)
+        if (
+            isinstance(drivers, dict)
+            and getattr(driver_method, "__code__", None) is coro.cr_code
+        ):
             return drivers.get(driver_name, None)
-- 
2.43.0


From 3a196adc53b59c1b838024c39645620d613eaad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 35/48] fix: deleting the last uncovered point of a CovGroup
 makes as_dict report it covered

---
 toffee/funcov.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index b9c20cc..a687d80 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -312,6 +312,9 @@ class CovGroup(object):
         if name not in self.cov_points:
             raise ValueError("Invalid key %s" % name)
         del self.cov_points[name]
+        self.hinted = bool(self.cov_points) and all(
+            v["hinted"] for v in self.cov_points.values()
+        )
         return self
 
     def reset_point(self, name: str):
-- 
2.43.0


From d085cd2e35fe737d7d7030e7643d4f9a0d5366ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:02 +0000
Subject: [PATCH 36/48] fix: ClockCycles on a bundle with a signal named event

---
 toffee/triggers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/toffee/triggers.py b/toffee/triggers.py
index dd93e99..0b140e6 100644
--- a/toffee/triggers.py
+++ b/toffee/triggers.py
@@ -20,15 +20,15 @@ async def ClockCycles(item, ncycles=1):
         ncycles: The number of clock cycles to be waited for.
     """
 
+    # item is Bundle, whose signals may have any name
+    if isinstance(item, Bundle):
+        await item.step(ncycles)
+
     # item is xpin
-    if hasattr(item, "event"):
+    elif hasattr(item, "event"):
         for _ in range(ncycles):
             await item.event.wait()
 
-    # item is Bundle
-    elif isinstance(item, Bundle):
-        await item.step(ncycles)
-
     # item is dut
     else:
         for _ in range(ncycles):
-- 
2.43.0


From 88f268e232339b3c3d2286474f8ee0086e434442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:41 +0000
Subject: [PATCH 37/48] fix: disconnect a nested bundle that is bound on its
 own after its outer bundle

---
 toffee/bundle.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index b4efd1a..60363b2 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -399,6 +399,7 @@ class Bundle(MObject):
 
         self.name = ""  # The name of the bundle
         self.bound = False  # Whether the bundle is bound to a DUT
+        self.__connected = False  # Whether a bind has connected it, maybe a bind of an outer bundle
         self.write_mode = None  # The write mode of the bundle
         self.current_level_signals = []  # The signal names in the current level
 
@@ -714,13 +715,14 @@ class Bundle(MObject):
 
         if self.bound:
             warning("bundle is already bound, the previous bind will be overwritten")
-            self.__unbind_all()
             self.__dut_instance__ = None
         else:
             # When first bind, set all sub-bundles' name
             for sub_bundle_name, sub_bundle in self.__all_sub_bundles():
                 sub_bundle.set_name(sub_bundle_name)
 
+        # The bundle or a part of it may also have been connected on its own
+        self.__unbind_all()
         self.__bind_from_signal_list(
             list(self.dut_all_signals(dut)),
             self.name,
@@ -1345,7 +1347,7 @@ class Bundle(MObject):
         """
 
         for signal_name in self.current_level_signals:
-            if hasattr(self, signal_name):
+            if self.__connected and hasattr(self, signal_name):
                 self.__remove_signal_attr(signal_name)
         for _, signal_list in self.__all_signal_lists():
             for idx, signal in enumerate(signal_list.signals):
@@ -1357,6 +1359,7 @@ class Bundle(MObject):
             for bundle in bundle_list.bundles:
                 bundle.__unbind_all()
         self.__clock_event = None
+        self.__connected = False
 
     def __bind_from_signal_list(
         self,
@@ -1393,6 +1396,7 @@ class Bundle(MObject):
         )
 
         if not detection_mode:
+            self.__connected = True
             self.__detect_missing_signals(
                 connected_signals, level_string, rule_stack, unconnected_signal_access
             )
-- 
2.43.0


From c1edd6180436b8b8f6a302fb653a3ed9a8a6184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:38 +0000
Subject: [PATCH 38/48] fix: generated bundle code with a regex that holds a
 double quote or a line break

---
 scripts/bundle_code_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/bundle_code_gen.py b/scripts/bundle_code_gen.py
index 66b24fe..d8a2cf4 100644
--- a/scripts/bundle_code_gen.py
+++ b/scripts/bundle_code_gen.py
@@ -123,7 +123,7 @@ def gen_bundle_code_from_regex(bundle_name: str, dut, regex: str, max_width: int
 
     code = __gen_bundle_code(bundle_name, signals, max_width)
     code += "\n"
-    code += f'bundle = {bundle_name}.from_regex(r"{regex}")\n'
+    code += f'bundle = {bundle_name}.from_regex({regex!r})\n'
 
     return code
 
-- 
2.43.0


From 26cd3a206513423326cabb4116c5f60d9aae0837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:42 +0000
Subject: [PATCH 39/48] fix: a task that joined a cancelled task resumed a
 cycle late

---
 toffee/asynchronous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 4b8a405..fbe9958 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -72,7 +72,7 @@ def __has_unwait_task():
         if task.get_name() == "__clock_loop":
             continue
 
-        if task._fut_waiter is None or task._fut_waiter._state == "FINISHED":
+        if task._fut_waiter is None or task._fut_waiter.done():
             return True
 
     return False
-- 
2.43.0


From 923625c74f33101c391f2fb0894f63ca8e30b71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:26 +0000
Subject: [PATCH 40/48] fix: a hook decorator applied to several functions
 named them all after the first

---
 toffee/model.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/toffee/model.py b/toffee/model.py
index 3eae491..ae4817f 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -45,13 +45,13 @@ def agent_hook(
     ], "sche_order must be 'model_first' or 'dut_first'"
 
     def decorator(func):
-        nonlocal agent_name
-
-        if agent_name == "" and agents == [] and methods == []:
-            agent_name = func.__name__
+        # The decorator may be applied to several functions
+        name = agent_name
+        if name == "" and agents == [] and methods == []:
+            name = func.__name__
 
         func.__is_agent_hook__ = True
-        func.__agent_name__ = agent_name
+        func.__agent_name__ = name
         func.__agents__ = agents
         func.__methods__ = methods
         func.__matched__ = [False]
@@ -101,19 +101,19 @@ def driver_hook(
     ], "sche_order must be 'model_first' or 'dut_first'"
 
     def decorator(func):
-        nonlocal driver_path, agent_name, driver_name
-
-        if driver_path == "":
+        # The decorator may be applied to several functions
+        path = driver_path
+        if path == "":
             if agent_name != "":
                 if driver_name != "":
-                    driver_path = f"{agent_name}.{driver_name}"
+                    path = f"{agent_name}.{driver_name}"
                 else:
-                    driver_path = f"{agent_name}.{func.__name__}"
+                    path = f"{agent_name}.{func.__name__}"
             else:
-                driver_path = func.__name__.replace("__", ".")
+                path = func.__name__.replace("__", ".")
 
         func.__is_driver_hook__ = True
-        func.__driver_path__ = driver_path
+        func.__driver_path__ = path
         func.__matched__ = [False]
         func.__priority__ = priority
         func.__sche_order__ = sche_order
@@ -154,20 +154,20 @@ def monitor_hook(
     assert priority in range(0, 100), "priority should be between 0 and 99"
 
     def decorator(func):
-        nonlocal monitor_path, agent_name, monitor_name
-
-        if monitor_path == "":
+        # The decorator may be applied to several functions
+        path = monitor_path
+        if path == "":
             if agent_name != "":
                 if monitor_name != "":
-                    monitor_path = f"{agent_name}.{monitor_name}"
+                    path = f"{agent_name}.{monitor_name}"
                 else:
-                    monitor_path = f"{agent_name}.{func.__name__}"
+                    path = f"{agent_name}.{func.__name__}"
             else:
-                monitor_path = func.__name__.replace("__", ".")
+                path = func.__name__.replace("__", ".")
 
         func.__is_monitor_hook__ = True
         func.__priority__ = priority
-        func.__monitor_path__ = monitor_path
+        func.__monitor_path__ = path
         func.__matched__ = [False]
 
         return func
-- 
2.43.0


From d802b9456c5259d501c6e50585cfb416130ac257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:26 +0000
Subject: [PATCH 41/48] fix: a call refused by the Executor left an empty group
 in its results

---
 toffee/executor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index 736dce1..4eb164b 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -208,9 +208,6 @@ class Executor(MObject):
             if driver is not None:
                 sche_group = driver.path
 
-        if sche_group not in self.__coros:
-            self.__coros[sche_group] = []
-
         if priority is not None:
             assert 0 <= priority <= 99, "Priority should be between 0 and 99"
 
@@ -229,6 +226,8 @@ class Executor(MObject):
                 driver is not None
             ), f"{coro_name} is not a driver function, cannot set sche_order"
 
+        if sche_group not in self.__coros:
+            self.__coros[sche_group] = []
         self.__coros[sche_group].append((coro, sche_order, priority))
 
     @staticmethod
-- 
2.43.0


From e132d6b8cb4abfc9605565d19302b9202fe42e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:09 +0000
Subject: [PATCH 42/48] fix: an invalid write mode stayed set and failed the
 next bind

---
 toffee/bundle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 60363b2..59a30fe 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -632,6 +632,10 @@ class Bundle(MObject):
             The bundle itself.
         """
 
+        # A refused write mode must not come into force with the next bind
+        if not isinstance(write_mode, WriteMode):
+            raise ValueError("write mode must be Imme, Rise, or Fall")
+
         self.write_mode = write_mode
         self.__set_all_signals_write_mode(write_mode)
 
-- 
2.43.0


From 408855c1e3e7185a82c763d0d16b446fe80f4c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:31 +0000
Subject: [PATCH 43/48] fix: the write mode of a nested bundle was lost when
 the outer bundle was bound

---
 toffee/bundle.py | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 59a30fe..f99503b 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -636,11 +636,33 @@ class Bundle(MObject):
         if not isinstance(write_mode, WriteMode):
             raise ValueError("write mode must be Imme, Rise, or Fall")
 
-        self.write_mode = write_mode
+        self.__record_write_mode(write_mode)
         self.__set_all_signals_write_mode(write_mode)
 
         return self
 
+    def __record_write_mode(self, write_mode: WriteMode):
+        """
+        Record the write mode for later binds, in the nested bundles as well.
+
+        Args:
+            write_mode: The write mode to record.
+        """
+
+        self.write_mode = write_mode
+        for bundle in self.__all_nested_bundles():
+            bundle.__record_write_mode(write_mode)
+
+    def __apply_write_mode(self):
+        """
+        Put the signals in the recorded write mode, those of a nested bundle in its own one.
+        """
+
+        if self.write_mode is not None:
+            self.__set_all_signals_write_mode(self.write_mode)
+        for bundle in self.__all_nested_bundles():
+            bundle.__apply_write_mode()
+
     def __set_all_signals_write_mode(self, write_mode: WriteMode):
         """
         Set the write mode of all signals in the bundle.
@@ -738,8 +760,7 @@ class Bundle(MObject):
         )
 
         self.bound = True
-        if self.write_mode is not None:
-            self.__set_all_signals_write_mode(self.write_mode)
+        self.__apply_write_mode()
         self.make_requset_response_for(dut)
         return self
 
@@ -1275,6 +1296,16 @@ class Bundle(MObject):
             if isinstance(getattr(self, attr), BundleList):
                 yield (attr, getattr(self, attr))
 
+    def __all_nested_bundles(self):
+        """
+        Yield all bundles directly nested in the bundle, those in bundle lists included.
+        """
+
+        for _, sub_bundle in self.__all_sub_bundles():
+            yield sub_bundle
+        for _, bundle_list in self.__all_bundle_lists():
+            yield from bundle_list.bundles
+
     def __detect_missing_signals(
         self, connected_signals, level_string, rule_stack, unconnected_signal_access
     ):
-- 
2.43.0


From 7ee7bd4575860fd7d8a51053844ae257ad86566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:44 +0000
Subject: [PATCH 44/48] fix: driver methods whose first parameter is not called
 self failed with ports and agent hooks

---
 toffee/_base_agent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index f484bb0..df39009 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -51,7 +51,8 @@ class Driver(BaseAgent):
         bound_args = signature.bind(None, *arg_list, **kwarg_list)
         bound_args.apply_defaults()
         arguments = bound_args.arguments
-        del arguments["self"]
+        # The first parameter is the agent, whatever its name
+        del arguments[next(iter(signature.parameters))]
         return arguments
 
     async def __drive_single_model_ports(self, model_info, arg_list, kwarg_list):
-- 
2.43.0


From 5fee5532d2998cd507573c12d11b2dead66f8a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:10 +0000
Subject: [PATCH 45/48] fix: a property without a value yet kept bundles,
 agents, envs and models from being made or attached

---
 toffee/_base.py  | 14 ++++++++++++++
 toffee/agent.py  | 13 +++++++------
 toffee/bundle.py | 23 ++++++++++++-----------
 toffee/env.py    |  5 +++--
 toffee/model.py  |  5 ++---
 5 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/toffee/_base.py b/toffee/_base.py
index fd5a6e5..c503736 100644
--- a/toffee/_base.py
+++ b/toffee/_base.py
@@ -3,3 +3,17 @@ __all__ = ["MObject"]
 
 class MObject(object):
     pass
+
+
+def all_attributes(obj):
+    """
+    Yield the name and value of each attribute of an object. Attributes that have no value yet, such as a property
+    that reads an unconnected signal, are left out.
+    """
+
+    for name in dir(obj):
+        try:
+            value = getattr(obj, name)
+        except Exception:
+            continue
+        yield name, value
diff --git a/toffee/agent.py b/toffee/agent.py
index 0509e4a..c296b68 100644
--- a/toffee/agent.py
+++ b/toffee/agent.py
@@ -4,6 +4,7 @@ __all__ = [
     "monitor_method",
 ]
 
+from ._base import all_attributes
 from ._base_agent import Driver
 from ._base_agent import Monitor
 from .logger import warning
@@ -85,9 +86,9 @@ class Agent:
             A generator that yields all driver method in the agent.
         """
 
-        for attr in dir(self):
-            if hasattr(getattr(self, attr), "__is_driver_decorated__"):
-                yield getattr(self, attr)
+        for _, value in all_attributes(self):
+            if hasattr(value, "__is_driver_decorated__"):
+                yield value
 
     def all_monitor_method(self):
         """
@@ -97,9 +98,9 @@ class Agent:
             A generator that yields all monitor method in the agent.
         """
 
-        for attr in dir(self):
-            if hasattr(getattr(self, attr), "__is_monitor_decorated__"):
-                yield getattr(self, attr)
+        for _, value in all_attributes(self):
+            if hasattr(value, "__is_monitor_decorated__"):
+                yield value
 
     def get_driver_method(self, name):
         """Get the driver method by name."""
diff --git a/toffee/bundle.py b/toffee/bundle.py
index f99503b..8ed0823 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -18,6 +18,7 @@ from typing import Optional
 from typing import Union
 
 from ._base import MObject
+from ._base import all_attributes
 from .logger import *
 
 
@@ -1142,8 +1143,8 @@ class Bundle(MObject):
 
         self.current_level_signals = [signal for signal in self.signals]
 
-        for signal in dir(self):
-            if isinstance(getattr(self, signal), Signal):
+        for signal, value in all_attributes(self):
+            if isinstance(value, Signal):
                 self.current_level_signals.append(signal)
 
     def all_signals(self, level_string=""):
@@ -1266,9 +1267,9 @@ class Bundle(MObject):
             sub-bundle and sub_bundle is the sub-bundle itself.
         """
 
-        for attr in dir(self):
-            if isinstance(getattr(self, attr), Bundle):
-                yield (attr, getattr(self, attr))
+        for attr, value in all_attributes(self):
+            if isinstance(value, Bundle):
+                yield (attr, value)
 
     def __all_signal_lists(self):
         """
@@ -1279,9 +1280,9 @@ class Bundle(MObject):
             signal list and signal_list is the signal list itself.
         """
 
-        for attr in dir(self):
-            if isinstance(getattr(self, attr), SignalList):
-                yield (attr, getattr(self, attr))
+        for attr, value in all_attributes(self):
+            if isinstance(value, SignalList):
+                yield (attr, value)
 
     def __all_bundle_lists(self):
         """
@@ -1292,9 +1293,9 @@ class Bundle(MObject):
             bundle list and bundle_list is the bundle list itself.
         """
 
-        for attr in dir(self):
-            if isinstance(getattr(self, attr), BundleList):
-                yield (attr, getattr(self, attr))
+        for attr, value in all_attributes(self):
+            if isinstance(value, BundleList):
+                yield (attr, value)
 
     def __all_nested_bundles(self):
         """
diff --git a/toffee/env.py b/toffee/env.py
index 4ee8a95..98d9f88 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -2,6 +2,7 @@ __all__ = ["Env"]
 
 from .agent import Agent
 from ._base import MObject
+from ._base import all_attributes
 from .logger import error
 from .logger import warning
 from .model import Model
@@ -91,8 +92,8 @@ class Env(MObject):
             A generator that yields all agent names in the env.
         """
 
-        for attr in dir(self):
-            if isinstance(getattr(self, attr), Agent):
+        for attr, value in all_attributes(self):
+            if isinstance(value, Agent):
                 yield attr
 
     def __config_agent_name(self):
diff --git a/toffee/model.py b/toffee/model.py
index ae4817f..5179bba 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -8,6 +8,7 @@ __all__ = [
     "MonitorPort",
 ]
 
+from ._base import all_attributes
 from .asynchronous import Component
 from .asynchronous import Queue
 from .logger import warning, error
@@ -345,9 +346,7 @@ class Model(Component):
         self.all_driver_hooks.clear()
         self.all_monitor_hooks.clear()
 
-        for attr in dir(self):
-            attr_value = getattr(self, attr)
-
+        for attr, attr_value in all_attributes(self):
             if isinstance(attr_value, Port):
                 if attr_value.name == "":
                     attr_value.name = attr
-- 
2.43.0


From 239aa98e2c69c4ba3a220d82567e9667ceeb3728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:11 +0000
Subject: [PATCH 46/48] fix: an agent with an unconnected signal among its
 attributes could not be put into an env

---
 toffee/agent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toffee/agent.py b/toffee/agent.py
index c296b68..f07b943 100644
--- a/toffee/agent.py
+++ b/toffee/agent.py
@@ -87,7 +87,7 @@ class Agent:
         """
 
         for _, value in all_attributes(self):
-            if hasattr(value, "__is_driver_decorated__"):
+            if getattr(value, "__is_driver_decorated__", False):
                 yield value
 
     def all_monitor_method(self):
@@ -99,7 +99,7 @@ class Agent:
         """
 
         for _, value in all_attributes(self):
-            if hasattr(value, "__is_monitor_decorated__"):
+            if getattr(value, "__is_monitor_decorated__", False):
                 yield value
 
     def get_driver_method(self, name):
-- 
2.43.0


From 0c6a9f30d1db805694cc2cf038a73cd942fb326f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:15 +0000
Subject: [PATCH 47/48] fix: a driver or monitor method that calls the one it
 overrides recursed without end

---
 toffee/agent.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/toffee/agent.py b/toffee/agent.py
index f07b943..ebdf11d 100644
--- a/toffee/agent.py
+++ b/toffee/agent.py
@@ -129,7 +129,10 @@ def __driver_wrapped_func(func):
 
     @functools.wraps(func)
     async def wrapper(agent, /, *args, **kwargs):
-        driver = agent.drivers[func.__name__]
+        driver = agent.drivers.get(func.__name__)
+        # The method is overridden, the overriding one calls it as a part of its own work
+        if driver is None or driver.func is not func:
+            return await func(agent, *args, **kwargs)
         return await driver.process_driver_call(agent, args, kwargs)
 
     wrapper.__original_func__ = func
@@ -155,7 +158,10 @@ def __monitor_wrapped_func(func):
 
     @functools.wraps(func)
     async def wrapper(agent, *args, **kwargs):
-        monitor = agent.monitors[func.__name__]
+        monitor = agent.monitors.get(func.__name__)
+        # The method is overridden, the overriding one calls it as a part of its own work
+        if monitor is None or monitor.func is not func:
+            return await func(agent, *args, **kwargs)
         return await monitor.get_queue.get()
 
     wrapper.__original_func__ = func
-- 
2.43.0


From 9a14811cdd89e2a0956ed166172ea06e509945fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:02 +0000
Subject: [PATCH 48/48] fix: str() of a bundle with a declared signal that is
 not bound raised AttributeError

---
 toffee/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 8ed0823..802034a 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1225,7 +1225,7 @@ class Bundle(MObject):
 
         signals = ", ".join(
             [
-                f"{signal}: {getattr(self, signal)}"
+                f"{signal}: {getattr(self, signal, UnconnectedSignal())}"
                 for signal in self.current_level_signals
             ]
         )
-- 
2.43.0

