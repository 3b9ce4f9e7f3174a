From 9b197744973d24e39e5aa91c24a4b1e76b2e9ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 01/32] fix: detaching and re-attaching a model

Env.unattach used an attribute that does not exist, attach never recorded the
env on the model (so a second attach never replaced the first), and
clear_matched assigned an attribute on a bound method.
---
 toffee/env.py   | 5 +++--
 toffee/model.py | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 4b5f5ff..e4c98e2 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -52,6 +52,7 @@ class Env(MObject):
         self.__inject_all(model)
         self.__ensure_model_match(model)
         self.attached_models.append(model)
+        model.attached_env = self
 
         return self
 
@@ -66,9 +67,9 @@ class Env(MObject):
             The env itself.
         """
 
-        if model in self.attached_model:
+        if model in self.attached_models:
             self.__uninject_all(model)
-            self.attached_model.remove(model)
+            self.attached_models.remove(model)
             model.clear_matched()
             model.attached_env = None
         else:
diff --git a/toffee/model.py b/toffee/model.py
index 3d7b9ee..ec61b72 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -321,7 +321,7 @@ class Model(Component):
 
     def __init__(self):
         super().__init__()
-        self.attached_agent = None
+        self.attached_env = None
 
         self.all_agent_ports = []
         self.all_driver_ports = []
@@ -384,7 +384,7 @@ class Model(Component):
 
         for agent_hook in self.all_agent_hooks:
             agent_hook.__matched__[0] = False
-            agent_hook.__methods_matched__ = [False] * len(agent_hook.__methods__)
+            agent_hook.__methods_matched__[:] = [False] * len(agent_hook.__methods__)
 
         for agent_port in self.all_agent_ports:
             agent_port.matched = False
@@ -392,10 +392,10 @@ class Model(Component):
 
     def is_attached(self):
         """
-        Check if the model is attached to an agent.
+        Check if the model is attached to an env.
         """
 
-        return self.attached_agent is not None
+        return self.attached_env is not None
 
     def ensure_all_matched(self):
         """
-- 
2.43.0


From 9d8d32323650bd553ca781ad94b09d4ed1a81db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 02/32] fix: AgentPort selected by agents, methods or
 agent_name

Attaching a model whose AgentPort is not named after an agent raised
ValueError even though the port matched, and the attribute name of a port with
explicit agents/methods was used as an agent name as well.
---
 toffee/env.py   | 8 +++++---
 toffee/model.py | 7 ++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index e4c98e2..5d31fe3 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -272,11 +272,13 @@ class Env(MObject):
             for agent in agent_port.agents:
                 if not hasattr(self, agent):
                     raise ValueError(
-                        f"Agent port {agent_port.__name__} is not matched to agent {agent}"
+                        f"Agent port {agent_port.name} is not matched to agent {agent}"
                     )
-            if not agent_port.name == "" and not hasattr(self, agent_port.name):
+            if not agent_port.agent_name == "" and not hasattr(
+                self, agent_port.agent_name
+            ):
                 raise ValueError(
-                    f"Agent port {agent_port.name} is not matched to agent {agent_port.name}"
+                    f"Agent port {agent_port.name} is not matched to agent {agent_port.agent_name}"
                 )
 
     def __get_driver(self, agent_name, driver_name):
diff --git a/toffee/model.py b/toffee/model.py
index ec61b72..ef86a2a 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -263,7 +263,12 @@ class AgentPort(Port):
         self.methods_matched = [False] * len(methods)
 
     def get_path(self):
-        return self.agent_name if self.agent_name != "" else self.name
+        """Get the agent name. The attribute name is used only if nothing else is selected."""
+
+        if self.agent_name == "" and self.agents == [] and self.methods == []:
+            return self.name
+
+        return self.agent_name
 
     async def __call__(self):
         return await self.get()
-- 
2.43.0


From 0855ebc04f7eb2624e6e7aa6440aebfb498f9e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 03/32] fix: a match from an earlier attach hides an unmatched
 hook

The matched marks live on the hook functions, which all instances of a model
class share, so attaching a second instance to an env without the agent was
accepted silently. Start every attach with cleared marks.
---
 toffee/env.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toffee/env.py b/toffee/env.py
index 5d31fe3..88d29e5 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -49,6 +49,7 @@ class Env(MObject):
             )
             model.attached_env.unattach(model)
 
+        model.clear_matched()
         self.__inject_all(model)
         self.__ensure_model_match(model)
         self.attached_models.append(model)
-- 
2.43.0


From ce85dd155af06c9bf85bd947e8dd54cbd8b81795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 04/32] fix: a failing hook poisons the next test

When a hook raised, the module level task list kept its (already awaited)
coroutines and the next run in the same process awaited them again. Take the
tasks off the list before running them.
---
 toffee/executor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index 18db891..d45d446 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -28,13 +28,14 @@ async def __execute_priority_tasks():
     """
 
     set_event = False
-    for coro, _, done_event in sorted(__priority_tasks, key=lambda x: x[1]):
+    tasks = sorted(__priority_tasks, key=lambda x: x[1])
+    __priority_tasks.clear()
+    for coro, _, done_event in tasks:
         await coro
         if done_event is not None:
             set_event = True
             done_event.set()
 
-    __priority_tasks.clear()
     return set_event
 
 
-- 
2.43.0


From 83ff3dda380fc268d6e14093aa550ca84c13e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 05/32] fix: CovGroup.stop_sample() cannot be called

The flag of the same name, set in init(), hid the method.
---
 toffee/funcov.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index d2bbe7c..fc6d1b4 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -254,7 +254,7 @@ class CovGroup(object):
         self.cov_points = OrderedDict()
         self.hinted = False
         self.all_once = False
-        self.stop_sample = False
+        self.__stop_sample = False
         self.sample_count = 0
         self.sample_calln = 0
         return self
@@ -465,7 +465,7 @@ class CovGroup(object):
         sample the group
         """
         self.sample_calln += 1
-        if self.stop_sample:
+        if self.__stop_sample:
             return
         if self.hinted and self.all_once:
             return
@@ -485,7 +485,7 @@ class CovGroup(object):
         """
         check if the group is stoped
         """
-        if self.stop_sample:
+        if self.__stop_sample:
             return True
         return self.hinted and self.all_once
 
@@ -493,14 +493,14 @@ class CovGroup(object):
         """
         stop sampling
         """
-        self.stop_sample = True
+        self.__stop_sample = True
         return self
 
     def resume_sample(self):
         """
         resume sampling
         """
-        self.stop_sample = False
+        self.__stop_sample = False
         self.all_once = False
         return self
 
@@ -565,7 +565,7 @@ class CovGroup(object):
         )
         ret["__sample_count__"] = self.sample_count
         ret["__sample_calln__"] = self.sample_calln
-        ret["__stop_sample__"] = self.stop_sample
+        ret["__stop_sample__"] = self.__stop_sample
         return ret
 
     def __str__(self) -> str:
-- 
2.43.0


From a8ab693f8f839ad1fd728cf40dfc39f49e2334c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 06/32] fix: unnamed watch point with a single condition

The default name was taken from bins.keys() before a single condition was
wrapped in a dict, so add_watch_point(target, CovEq(1)) raised AttributeError.
---
 toffee/funcov.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index fc6d1b4..20b0524 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -273,15 +273,15 @@ class CovGroup(object):
         @param bins: a dict of CovCondition objects, a single CovCondition object or a Callable object (its params is call(target) -> bool).
         @param name: the name of the point
         """
+        if not isinstance(bins, dict):
+            if not callable(bins):
+                raise ValueError("Invalid value %s for key %s" % (bins, name))
+            bins = {"anonymous": bins}
         key = name
         if not key:
             key = "%s:%s" % (target, bins.keys())
         if key in self.cov_points:
             raise ValueError("Duplicated key %s" % key)
-        if not isinstance(bins, dict):
-            if not callable(bins):
-                raise ValueError("Invalid value %s for key %s" % (bins, key))
-            bins = {"anonymous": bins}
         for k, v in bins.items():
             if not isinstance(v, (list, tuple)):
                 if not callable(v):
-- 
2.43.0


From bb69597c9e6fcd4faac5b548be1214e6f3e38b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 07/32] fix: StatsHandler.get_stats() returns the counters

It read an attribute that is never set.
---
 toffee/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/logger.py b/toffee/logger.py
index 8d49fd7..6d62fe8 100644
--- a/toffee/logger.py
+++ b/toffee/logger.py
@@ -42,7 +42,7 @@ class StatsHandler(logging.Handler):
         self.id_stats[log_id] += 1
 
     def get_stats(self):
-        return self.stats
+        return {"severity": self.serverity_stats, "id": self.id_stats}
 
 
 # ANSI escape sequences for colors
-- 
2.43.0


From a9c418f013819de89716095210fc80c919828468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 08/32] fix: log_id decorated once per handler

With both the console and a log file, the second handler formatted the already
decorated id.
---
 toffee/logger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toffee/logger.py b/toffee/logger.py
index 6d62fe8..f1f6d74 100644
--- a/toffee/logger.py
+++ b/toffee/logger.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 
 __all__ = [
@@ -60,6 +61,8 @@ class ToffeeFormatter(logging.Formatter):
     """
 
     def format(self, record):
+        # The record is shared by all handlers, decorate a copy of it
+        record = copy.copy(record)
         if not hasattr(record, "log_id") or record.log_id == "":
             record.log_id = ""
         else:
-- 
2.43.0


From 06ee045758573186322dcb02bf499f9d86f07f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 09/32] fix: setup_logging ignores its format argument

---
 toffee/logger.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toffee/logger.py b/toffee/logger.py
index f1f6d74..a04a824 100644
--- a/toffee/logger.py
+++ b/toffee/logger.py
@@ -137,15 +137,17 @@ def setup_logging(
 
     toffee_logger.addHandler(stats_handler)
 
+    formatter = ToffeeFormatter(format)
+
     if console_display:
         screen_handler.setLevel(log_level)
-        screen_handler.setFormatter(default_formatter)
+        screen_handler.setFormatter(formatter)
         toffee_logger.addHandler(screen_handler)
 
     if log_file:
         fh = logging.FileHandler(log_file, mode="w")
         fh.setLevel(log_level)
-        fh.setFormatter(default_formatter)
+        fh.setFormatter(formatter)
         toffee_logger.addHandler(fh)
 
 
-- 
2.43.0


From 531b9ea6424f8c3edeea836e5c8d2604dc1ea8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 10/32] fix: Bundle.assign removes "*" from the dictionary of
 the caller

Assigning the same dictionary a second time left the remaining signals alone.
---
 toffee/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index e76332b..db19e79 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -841,7 +841,7 @@ class Bundle(MObject):
 
         if "*" in item:
             self.set_all(item["*"])
-            del item["*"]
+            item = {key: value for key, value in item.items() if key != "*"}
 
         if multilevel:
             for signal, value in item.items():
-- 
2.43.0


From 93f338c62354ce8d9102a39a56d60330c413bfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 11/32] fix: binding a bundle again when some signals are
 unconnected

With unconnected_signal_access=False, the second bind read attributes of the
class level Signal() and raised AttributeError.
---
 toffee/bundle.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index db19e79..441977d 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1282,12 +1282,31 @@ class Bundle(MObject):
             signal_name: The name of the signal to remove.
         """
 
-        signal = getattr(self, signal_name)
+        # A signal that was never connected is still the one declared in the class
+        if signal_name not in self.__dict__:
+            return
+
+        Bundle.__release_signal(getattr(self, signal_name))
+        delattr(self, signal_name)
+
+    @staticmethod
+    def __release_signal(signal):
+        """
+        Update the signal info when a signal is disconnected from the bundle.
+
+        Args:
+            signal: The signal to disconnect, it may be not connected at all.
+        """
+
+        if isinstance(signal, UnconnectedSignal) or not Bundle.__is_instance_of_xpin(
+            signal
+        ):
+            return
+
         if hasattr(signal.xdata, "number_of_bundles_connected_to"):
             signal.xdata.number_of_bundles_connected_to -= 1
             if signal.xdata.number_of_bundles_connected_to == 0:
                 delattr(signal.xdata, "number_of_bundles_connected_to")
-        delattr(self, signal_name)
 
     def __unbind_all(self):
         """
-- 
2.43.0


From 39d994797edf6f34262973b7ed51a35d4df94a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 12/32] fix: binding a bundle again leaves its lists connected

Signal lists and bundle lists kept their connection counts, so the old pins
looked connected and the new ones connected more than once.
---
 toffee/bundle.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 441977d..e3816c0 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1316,8 +1316,15 @@ class Bundle(MObject):
         for signal_name in self.current_level_signals:
             if hasattr(self, signal_name):
                 self.__remove_signal_attr(signal_name)
+        for _, signal_list in self.__all_signal_lists():
+            for idx, signal in enumerate(signal_list.signals):
+                Bundle.__release_signal(signal)
+                signal_list.signals[idx] = Signal()
         for _, sub_bundle in self.__all_sub_bundles():
             sub_bundle.__unbind_all()
+        for _, bundle_list in self.__all_bundle_lists():
+            for bundle in bundle_list.bundles:
+                bundle.__unbind_all()
 
     def __bind_from_signal_list(
         self,
-- 
2.43.0


From 26e0ecd56efdf0c49222f1cd178356ed4ee21fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 13/32] fix: a bundle bound to another dut keeps the old clock
 event

---
 toffee/bundle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index e3816c0..cbd56da 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1313,6 +1313,7 @@ class Bundle(MObject):
         Unbind all signals to the bundle.
         """
 
+        self.__clock_event = None
         for signal_name in self.current_level_signals:
             if hasattr(self, signal_name):
                 self.__remove_signal_attr(signal_name)
-- 
2.43.0


From b9c53f8e5aa3bf299bfaefc7f9fda1f8f0845738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 14/32] fix: binding to the same dut again doubles the request
 callback

Two requests were consumed in every cycle after the second bind.
---
 toffee/bundle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index cbd56da..1e1cad0 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -497,6 +497,8 @@ class Bundle(MObject):
         Args:
             dut: The dut to make the request response for.
         """
+        if self.__dut_instance__ is dut:
+            return
         if self.__dut_instance__ is not None:
             error("The dut instance is already set")
         dut.StepRis(self.___dut_call_on_rise__)
-- 
2.43.0


From f626c3d509d4746efb1897914665f6f16184f149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:35 +0000
Subject: [PATCH 15/32] fix: instances of a bundle share the bundles of their
 lists

Binding one instance to a second dut redirected the other instance too. Recreate
them for each instance, as is done for sub-bundles.
---
 toffee/bundle.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 1e1cad0..0caa56b 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -150,7 +150,12 @@ class BundleList:
         bundle_list = cls(old_bundle_list.bundles[0], "#", 1)
         bundle_list.format = old_bundle_list.format
         bundle_list.names = old_bundle_list.names[:]
-        bundle_list.bundles = old_bundle_list.bundles[:]
+        bundle_list.bundles = []
+        for old_bundle in old_bundle_list.bundles:
+            bundle = old_bundle.__class__()
+            bundle.current_level_signals = old_bundle.current_level_signals
+            bundle._Bundle__connect_method = old_bundle._Bundle__connect_method
+            bundle_list.bundles.append(bundle)
         return bundle_list
 
 
-- 
2.43.0


From 717a10194e38046171a2ff3a910a19eabd90489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 16/32] fix: a bundle whose signals are all in a bundle list
 has no clock

step() reported that there is no connected signal and failed.
---
 toffee/bundle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 0caa56b..5a70e9c 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1431,6 +1431,8 @@ class Bundle(MObject):
                     specific_signal,
                     all_signals_rule,
                 )
+                if bundle.__clock_event is not None:
+                    self.__clock_event = bundle.__clock_event
 
         Bundle.__revert_signal_name(matching_signals, all_signals)
         return matching_signals + remain_signals
-- 
2.43.0


From 06ecfcfd188119dfe186f1aae4f0dbcd6258c0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 17/32] fix: process_requests returns while its last request is
 still waiting

A last request whose condition was not true yet was neither executed nor
reported, and blocked the next call.
---
 toffee/bundle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 5a70e9c..b63de35 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -533,7 +533,9 @@ class Bundle(MObject):
             request = [request]
         for req in request:
             self.__dut_requests__.put(req)
-        while not self.__dut_requests__.empty():
+        while (
+            not self.__dut_requests__.empty() or self.__blocked_request__ is not None
+        ):
             self.__dut_instance__.Step(1)
         ret = []
         for req in request:
-- 
2.43.0


From b0d076674cef5c0d034d0b7ba296d2f011ea44f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 18/32] fix: detect_specific_connectivity ignores which signal
 is meant

For a prefix bundle every name that matched any signal was accepted, for regex
and dict bundles a TypeError was raised.
---
 toffee/bundle.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index b63de35..3815dc9 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -237,7 +237,7 @@ class PrefixBindMethod(BindMethod):
                                 level_string, name_no_prefix
                             ),
                         )
-                        connected_signals.append(name_no_prefix)
+                    connected_signals.append(name_no_prefix)
                 elif signal_list_name_and_inst := self.get_matching_signal_list(
                     bundle, name_no_prefix
                 ):
@@ -251,7 +251,7 @@ class PrefixBindMethod(BindMethod):
                                 level_string, signal_list_name_and_inst[0]
                             ),
                         )
-                        connected_signals.append(name_no_prefix)
+                    connected_signals.append(name_no_prefix)
                 else:
                     matching_signals.append(
                         {
@@ -1378,17 +1378,14 @@ class Bundle(MObject):
             if specific_signal is not None:
                 error("specific signal could only be used in detection mode")
         else:
-            if specific_signal is not None:
-                remain_signals += connected_signals
-                connected_signals = []
-
-                for signal in remain_signals:
-                    full_signal_name = Bundle.__appended_level_string(
-                        level_string, signal["name"]
-                    )
-                    if full_signal_name == specific_signal:
-                        connected_signals.append(signal)
-                        remain_signals.remove(signal)
+            if specific_signal is not None and len(connected_signals) > 0:
+                # A single signal is examined, a connection to another signal does not count
+                full_signal_names = [
+                    Bundle.__appended_level_string(level_string, signal)
+                    for signal in connected_signals
+                ]
+                if specific_signal not in full_signal_names:
+                    remain_signals = remain_signals + all_signals
 
             if all_signals_rule is not None:
                 for signal in self.current_level_signals:
-- 
2.43.0


From 71d79fce6df702ed227cb66ae72e816c493d0b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 19/32] fix: rule of a bundle with a connection dictionary

The dictionary is matched by its values, so the entry of a signal was never
found and every rule read "<No Matching Signal in Dict>".
---
 toffee/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 3815dc9..c045bf5 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1649,7 +1649,7 @@ class Bundle(MObject):
 
         filtered_dict = {}
         for key, value in dict.items():
-            if self.detect_specific_connectivity(key, could_connected_to):
+            if self.detect_specific_connectivity(value, could_connected_to):
                 filtered_dict[key] = value
         return filtered_dict
 
-- 
2.43.0


From ffbdd3ef12f3a32770714f43ca06507f8d209f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 20/32] fix: one-level dictionary of a bundle with a bundle
 list

assign(multilevel=False) rejected the keys "list[0].signal" that
as_dict(multilevel=False) produces.
---
 toffee/bundle.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index c045bf5..7abaf27 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -908,6 +908,16 @@ class Bundle(MObject):
                         for bundle_list in self.__all_bundle_lists()
                     ):
                         getattr(self, signal).assign(value, multilevel)
+                    elif (
+                        bundle := self.__get_bundle_list_item(sub_bundle_name)
+                    ) is not None:
+                        bundle.assign(
+                            {sub_bundle_signal: value},
+                            multilevel,
+                            Bundle.__appended_level_string(
+                                level_string, sub_bundle_name
+                            ),
+                        )
                     else:
                         full_signal_name = Bundle.__appended_level_string(
                             level_string, signal
@@ -1241,6 +1251,23 @@ class Bundle(MObject):
             if isinstance(getattr(self, attr), BundleList):
                 yield (attr, getattr(self, attr))
 
+    def __get_bundle_list_item(self, item_name):
+        """
+        Get a bundle in a bundle list by its name in the one-level dictionary.
+
+        Args:
+            item_name: The name of the item, such as "bundle_list[0]".
+
+        Returns:
+            The bundle, or None if there is no such item.
+        """
+
+        for bundle_list_name, bundle_list in self.__all_bundle_lists():
+            for idx, bundle in enumerate(bundle_list.bundles):
+                if item_name == f"{bundle_list_name}[{idx}]":
+                    return bundle
+        return None
+
     def __detect_missing_signals(
         self, connected_signals, level_string, rule_stack, unconnected_signal_access
     ):
-- 
2.43.0


From 80aebe28d48e5bdf5ddf9e5851fec9b120c62a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 21/32] fix: Delayer samples more than once in a cycle with
 hooks

Callbacks are executed again when a hook ran, so the delay became shorter than
requested. Sample once, after everything in the cycle is done.
---
 toffee/asynchronous.py | 14 ++++++++++++++
 toffee/delay.py        |  5 ++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 79519b4..e5c0606 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -33,6 +33,17 @@ def add_callback(coro, *args, **kwargs):
     callback_list.append((coro, args, kwargs))
 
 
+settled_callback_list = []
+
+
+def add_settled_callback(coro, *args, **kwargs):
+    """
+    Add a callback function that is executed once in every clock cycle, when nothing is left to execute in it.
+    """
+
+    settled_callback_list.append((coro, args, kwargs))
+
+
 async def __execute_callback():
     """
     Execute the callback function. The Callback will be executed between the next clock time after other_task_done.
@@ -106,6 +117,9 @@ async def execute_all_coros():
         if not (await __execute_callback()):
             break
 
+    for func, args, kwargs in settled_callback_list:
+        await func(*args, **kwargs)
+
     if asyncio.get_event_loop().test_done:
         await cancel_all_tasks()
         await asyncio.sleep(0)
diff --git a/toffee/delay.py b/toffee/delay.py
index efdf27d..346def6 100644
--- a/toffee/delay.py
+++ b/toffee/delay.py
@@ -1,17 +1,16 @@
 __all__ = ["Delayer"]
 
 import asyncio
-from .asynchronous import add_callback
+from .asynchronous import add_settled_callback
 from ._base import MObject
 
 
 async def __process_delayer():
     for delayer in asyncio.get_event_loop().delayer_list:
         delayer.sample()
-    return False
 
 
-add_callback(__process_delayer)
+add_settled_callback(__process_delayer)
 
 
 class Delayer(MObject):
-- 
2.43.0


From 9ce95b79a4b929c3cbb74711ddaa89501ab1802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 22/32] fix: full monitor queue of an agent without an env

The error message needs the path, which was only set by Env, so the monitor task
died with AttributeError.
---
 toffee/_base_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index b48b51e..92d4467 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -18,7 +18,7 @@ class BaseAgent:
         self.func = func
         self.name = func.__name__
         self.agent_name = ""
-        self.path_name = ""
+        self.path = self.name
         self.compare_func = compare_func
         self.model_infos = {}
 
-- 
2.43.0


From 5ecd5d694568ee0b35502bf8551934afd1b0c344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 23/32] fix: priority and sche_order of a call are lost

The settings of a driver call were kept on the driver until its background part
ended, which then also cleared those of a later call of the same driver that was
already running. Take them over when the call starts.
---
 toffee/_base_agent.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index 92d4467..61b1e06 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -65,7 +65,7 @@ class Driver(BaseAgent):
             await model_info["driver_port"].put(args)
 
     def __drive_single_driver_hook(
-        self, driver_hook, model_results, arg_list, kwarg_list
+        self, driver_hook, model_results, arg_list, kwarg_list, priority
     ):
         if inspect.iscoroutinefunction(driver_hook):
             assert False, "driver_hook should not be a coroutine function"
@@ -74,15 +74,14 @@ class Driver(BaseAgent):
             model_results.append((driver_hook, driver_hook(*arg_list, **kwarg_list)))
 
         event = Event()
-        priority = (
-            self.priority if self.priority is not None else driver_hook.__priority__
-        )
+        if priority is None:
+            priority = driver_hook.__priority__
         add_priority_task(driver_hook_wrapper(), priority, event)
 
         return event
 
     def __drive_single_agent_hook(
-        self, agent_hook, model_results, arg_list, kwarg_list
+        self, agent_hook, model_results, arg_list, kwarg_list, priority
     ):
         if inspect.iscoroutinefunction(agent_hook):
             assert False, "agent_hook should not be a coroutine function"
@@ -96,9 +95,8 @@ class Driver(BaseAgent):
             )
 
         event = Event()
-        priority = (
-            self.priority if self.priority is not None else agent_hook.__priority__
-        )
+        if priority is None:
+            priority = agent_hook.__priority__
         add_priority_task(agent_hook_wrapper(), priority, event)
 
         return event
@@ -115,6 +113,11 @@ class Driver(BaseAgent):
             The result of the DUT if imme_ret is False, otherwise None.
         """
 
+        # The settings made for this call, later calls of this driver must neither see nor clear them
+        priority, sche_order = self.priority, self.sche_order
+        self.priority = None
+        self.sche_order = None
+
         # Execute model_first driver hooks and agent hooks
 
         model_results = []
@@ -130,11 +133,11 @@ class Driver(BaseAgent):
                 if driver_hook := model_info["driver_hook"]:
                     if (
                         driver_hook.__sche_order__ == "model_first"
-                        and self.sche_order != "dut_first"
-                    ) or self.sche_order == "model_first":
+                        and sche_order != "dut_first"
+                    ) or sche_order == "model_first":
                         model_first_events.append(
                             self.__drive_single_driver_hook(
-                                driver_hook, model_results, arg_list, kwarg_list
+                                driver_hook, model_results, arg_list, kwarg_list, priority
                             ).wait()
                         )
                     else:
@@ -143,11 +146,11 @@ class Driver(BaseAgent):
                 for agent_hook in model_info["agent_hook"]:
                     if (
                         agent_hook.__sche_order__ == "model_first"
-                        and self.sche_order != "dut_first"
-                    ) or self.sche_order == "model_first":
+                        and sche_order != "dut_first"
+                    ) or sche_order == "model_first":
                         model_first_events.append(
                             self.__drive_single_agent_hook(
-                                agent_hook, model_results, arg_list, kwarg_list
+                                agent_hook, model_results, arg_list, kwarg_list, priority
                             ).wait()
                         )
                     else:
@@ -165,13 +168,13 @@ class Driver(BaseAgent):
             for driver_hook in dut_first_driver_hooks:
                 dut_first_events.append(
                     self.__drive_single_driver_hook(
-                        driver_hook, model_results, arg_list, kwarg_list
+                        driver_hook, model_results, arg_list, kwarg_list, priority
                     ).wait()
                 )
             for agent_hook in dut_first_agent_hooks:
                 dut_first_events.append(
                     self.__drive_single_agent_hook(
-                        agent_hook, model_results, arg_list, kwarg_list
+                        agent_hook, model_results, arg_list, kwarg_list, priority
                     ).wait()
                 )
             await gather(*dut_first_events)
@@ -186,9 +189,6 @@ class Driver(BaseAgent):
                         match_detail=True,
                     )
 
-            self.priority = None
-            self.sche_order = None
-
         create_task(background_exec())
 
         return dut_result
-- 
2.43.0


From 467ce5f2cc536ede3bdf4ab925aae7c821be99a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:18 +0000
Subject: [PATCH 24/32] fix: refuse a model whose hook or port names an
 attribute of the environment that is not an agent

---
 toffee/env.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 88d29e5..e0f5d37 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -255,15 +255,17 @@ class Env(MObject):
         """
 
         model.ensure_all_matched()
+        agent_names = list(self.all_agent_names())
 
         for agent_hook in model.all_agent_hooks:
             for agent in agent_hook.__agents__:
-                if not hasattr(self, agent):
+                if agent not in agent_names:
                     raise ValueError(
                         f"Agent hook {agent_hook.__name__} is not matched to agent {agent}"
                     )
-            if not agent_hook.__agent_name__ == "" and not hasattr(
-                self, agent_hook.__agent_name__
+            if (
+                not agent_hook.__agent_name__ == ""
+                and agent_hook.__agent_name__ not in agent_names
             ):
                 raise ValueError(
                     f"Agent hook {agent_hook.__name__} is not matched to agent {agent_hook.__agent_name__}"
@@ -271,12 +273,13 @@ class Env(MObject):
 
         for agent_port in model.all_agent_ports:
             for agent in agent_port.agents:
-                if not hasattr(self, agent):
+                if agent not in agent_names:
                     raise ValueError(
                         f"Agent port {agent_port.name} is not matched to agent {agent}"
                     )
-            if not agent_port.agent_name == "" and not hasattr(
-                self, agent_port.agent_name
+            if (
+                not agent_port.agent_name == ""
+                and agent_port.agent_name not in agent_names
             ):
                 raise ValueError(
                     f"Agent port {agent_port.name} is not matched to agent {agent_port.agent_name}"
-- 
2.43.0


From 00816a6587fe20453d0127bd52b42eecc9e21735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 25/32] fix: names of the missing signals of a signal list

---
 toffee/bundle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 7abaf27..997f0a8 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1299,11 +1299,11 @@ class Bundle(MObject):
             for idx, signal in enumerate(signal_list.names):
                 if signal not in connected_signals:
                     rule_string = Bundle.__get_rule_string(rule_stack, signal)
-                    level_string = Bundle.__appended_level_string(
+                    full_signal_name = Bundle.__appended_level_string(
                         level_string, f"{signal_list_name}[{idx}]"
                     )
                     warning(
-                        f'The signal that can be connected to "{level_string}" '
+                        f'The signal that can be connected to "{full_signal_name}" '
                         f'is not found in dut, it should satisfy rule "{rule_string}"'
                     )
 
-- 
2.43.0


From beca3e21facd2702db2cf594fcd4966d236b8033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 26/32] fix: process_requests changes the requests and answers
 a repeated one from the first time

---
 toffee/bundle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 997f0a8..b881a77 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -531,6 +531,8 @@ class Bundle(MObject):
             )
         if not isinstance(request, list):
             request = [request]
+        # The answers are noted in the requests, those of the caller are left alone
+        request = [dict(req) if isinstance(req, dict) else req for req in request]
         for req in request:
             self.__dut_requests__.put(req)
         while (
-- 
2.43.0


From 7b9056f7d82103b1657c21af9c551059c17f584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:47 +0000
Subject: [PATCH 27/32] fix: let a driver or monitor method call the one it
 overrides

---
 toffee/agent.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/toffee/agent.py b/toffee/agent.py
index b686d8a..e95efdb 100644
--- a/toffee/agent.py
+++ b/toffee/agent.py
@@ -129,6 +129,9 @@ def __driver_wrapped_func(func):
     @functools.wraps(func)
     async def wrapper(agent, *args, **kwargs):
         driver = agent.drivers[func.__name__]
+        if driver.func is not func:
+            # Overridden, and called by the method that overrides it as part of its own call
+            return await func(agent, *args, **kwargs)
         return await driver.process_driver_call(agent, args, kwargs)
 
     wrapper.__original_func__ = func
@@ -155,6 +158,9 @@ def __monitor_wrapped_func(func):
     @functools.wraps(func)
     async def wrapper(agent, *args, **kwargs):
         monitor = agent.monitors[func.__name__]
+        if monitor.func is not func:
+            # Overridden, and called by the method that overrides it to get its value
+            return await func(agent, *args, **kwargs)
         return await monitor.get_queue.get()
 
     wrapper.__original_func__ = func
-- 
2.43.0


From 706709a18e55f3ed9c026f15f3c7c8fa48a401c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:53 +0000
Subject: [PATCH 28/32] fix: let the first parameter of a driver method have
 any name

---
 toffee/_base_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index 61b1e06..c9d6396 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -51,7 +51,7 @@ class Driver(BaseAgent):
         bound_args = signature.bind(None, *arg_list, **kwarg_list)
         bound_args.apply_defaults()
         arguments = bound_args.arguments
-        del arguments["self"]
+        del arguments[next(iter(arguments))]
         return arguments
 
     async def __drive_single_model_ports(self, model_info, arg_list, kwarg_list):
-- 
2.43.0


From 2369144bd6ae798c6158bbdd954c1dec4b67f6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:38 +0000
Subject: [PATCH 29/32] fix: leave no empty group behind when the executor
 refuses a call

---
 toffee/executor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index d45d446..d7a9b74 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -192,9 +192,6 @@ class Executor(MObject):
             if driver is not None:
                 sche_group = f"{driver.agent_name}.{sche_group}"
 
-        if sche_group not in self.__coros:
-            self.__coros[sche_group] = []
-
         if priority is not None:
             assert 0 <= priority <= 99, "Priority should be between 0 and 99"
 
@@ -213,6 +210,9 @@ class Executor(MObject):
                 driver is not None
             ), f"{coro_name} is not a driver function, cannot set sche_order"
 
+        if sche_group not in self.__coros:
+            self.__coros[sche_group] = []
+
         self.__coros[sche_group].append((coro, sche_order, priority))
 
     @staticmethod
-- 
2.43.0


From a3dfe6039b04eefe2370d206c40623a2019cc48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:38 +0000
Subject: [PATCH 30/32] fix: accept coroutines with a variable named agent that
 is no agent

---
 toffee/executor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index d7a9b74..4047e83 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -258,5 +258,7 @@ class Executor(MObject):
         agent = coro.cr_frame.f_locals.get("agent", None)
         driver_name = coro.__name__
 
-        if agent is not None:
-            return agent.drivers.get(driver_name, None)
+        # Any coroutine may have a variable of this name
+        drivers = getattr(agent, "drivers", None)
+        if isinstance(drivers, dict):
+            return drivers.get(driver_name, None)
-- 
2.43.0


From a3c95f46b808b8e14677e6ec99d65c22b44933cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:02 +0000
Subject: [PATCH 31/32] fix: process_requests changes the dictionary that a
 request function returns

---
 toffee/bundle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index b881a77..7147f63 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -455,7 +455,8 @@ class Bundle(MObject):
             data = request(cycle, self)
             if data is None:
                 return
-            request = data
+            # The dictionary may be used again, it is left alone
+            request = dict(data)
         # check condition
         if "__condition_func__" in request:
             if not request["__condition_func__"](
-- 
2.43.0


From ecd2e542e889561a3e70352c3834fadcdde7bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:34 +0000
Subject: [PATCH 32/32] fix: ClockCycles takes a bundle with a signal called
 event for a pin

---
 toffee/triggers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/toffee/triggers.py b/toffee/triggers.py
index dd93e99..f5c7abf 100644
--- a/toffee/triggers.py
+++ b/toffee/triggers.py
@@ -20,15 +20,15 @@ async def ClockCycles(item, ncycles=1):
         ncycles: The number of clock cycles to be waited for.
     """
 
+    # item is Bundle (any of its signals may be called event)
+    if isinstance(item, Bundle):
+        await item.step(ncycles)
+
     # item is xpin
-    if hasattr(item, "event"):
+    elif hasattr(item, "event"):
         for _ in range(ncycles):
             await item.event.wait()
 
-    # item is Bundle
-    elif isinstance(item, Bundle):
-        await item.step(ncycles)
-
     # item is dut
     else:
         for _ in range(ncycles):
-- 
2.43.0

