From 9d31dfd7d429be130650bfec61a7a98606799725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 001/131] fix: UVMMailbox.num() returns the number of items;
 peek() re-checks after waking

num() returned a bool, so a TLM FIFO of depth >= 2 never reported itself full.
peek() waited only once and returned None when another process had consumed
the item in the meantime.
---
 src/uvm/base/uvm_mailbox.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_mailbox.py b/src/uvm/base/uvm_mailbox.py
index f82140e..12e0e90 100644
--- a/src/uvm/base/uvm_mailbox.py
+++ b/src/uvm/base/uvm_mailbox.py
@@ -85,7 +85,8 @@ class UVMMailbox():
 
     async def peek(self, itemq: OutputItem=None) -> Any:
         """ Peeks (with blocking) next item from mailbox without removing it """
-        if not self.can_get():
+        # Another process may have consumed the item before this one wakes up
+        while not self.can_get():
             _uvm_debug(self, 'get', 'waiting write event to get item')
             self.m_write_event.clear()
             await self.m_write_event.wait()
@@ -152,4 +153,4 @@ class UVMMailbox():
         return self.m_queue.size() < self.max_size
 
     def num(self) -> int:
-        return self.m_queue.size() > 0
+        return self.m_queue.size()
-- 
2.43.0


From aeee17909fd337c0a90538816711564bfec92ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 002/131] fix: UVMTLMFIFO.peek() appends one item; get_ap
 broadcasts the item removed

try_get() (and so flush()) wrote t[0], the first element of the caller's list,
instead of the item it had just appended.
---
 src/uvm/tlm1/uvm_tlm_fifos.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/uvm/tlm1/uvm_tlm_fifos.py b/src/uvm/tlm1/uvm_tlm_fifos.py
index 32a3093..dfa3a51 100644
--- a/src/uvm/tlm1/uvm_tlm_fifos.py
+++ b/src/uvm/tlm1/uvm_tlm_fifos.py
@@ -122,15 +122,12 @@ class UVMTLMFIFO(UVMTLMFIFOBase):
         return res
 
     async def peek(self, t=None) -> Any:
-        res = await self.m.peek(t)
-        if t is not None:
-            t.append(res)
-        return res
+        return await self.m.peek(t)
 
     def try_get(self, t) -> bool:
         if not self.m.try_get(t):
             return False
-        self.get_ap.write(t[0])
+        self.get_ap.write(t[-1])
         return True
 
     def try_peek(self, t) -> bool:
-- 
2.43.0


From 8a54fc87ec4aa0c724e6e9da484b73d3a89a2a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 003/131] fix: execute all scheduled objection drains, not only
 the first

When two objects dropped their last objection before the background process
woke up, only one drain was started and the other all_dropped was delayed until
another objection was dropped, or lost.
---
 src/uvm/base/uvm_objection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index d36934c..937c279 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -777,7 +777,8 @@ class UVMObjection(UVMReportObject):
             await UVMObjection.m_scheduled_list_not_empty_event.wait()
             UVMObjection.m_scheduled_list_not_empty_event.clear()
 
-            if len(UVMObjection.m_scheduled_list) != 0:
+            # Several drops may have been scheduled before this process woke up
+            while len(UVMObjection.m_scheduled_list) != 0:
                 # Save off the context before the fork
                 c = UVMObjection.m_scheduled_list.pop(0)
 
-- 
2.43.0


From 0e55f3e009d862d4c1eec8ab3c8292763299b268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 004/131] fix: UVMObjection.set_drain_time() has an effect on
 the given object

The time was only stored when no object was given.
---
 src/uvm/base/uvm_objection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 937c279..4e4c716 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -900,7 +900,7 @@ class UVMObjection(UVMReportObject):
     def set_drain_time(self, obj=None, drain=0):
         if obj is None:
             obj = self.m_top
-            self.m_drain_time[obj] = drain
+        self.m_drain_time[obj] = drain
 
     #  //----------------------
     #  // Group: Callback Hooks
-- 
2.43.0


From f92128219e80aa2824dd9be204efc367445ce3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 005/131] fix: raising an objection during the drain terminates
 the drain

The drain process went on after a re-raise: it called all_dropped although an
objection was outstanding, propagated the old drop to the parents (ending phases
early) and finally failed with KeyError. A drain time of 0 is no wait.
---
 src/uvm/base/uvm_objection.py | 45 +++++++++++++----------------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 4e4c716..d2b626e 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -508,21 +508,16 @@ class UVMObjection(UVMReportObject):
                 idx += 1
 
         # If it's not there, go through the forked contexts
+        draining = False
         if ctxt is None:
             if obj in self.m_forked_contexts:
-                # Caught it with the forked drain running
+                # Caught it with the forked drain running. The drain process gives
+                # up (and recycles the context) once it sees that it was removed
                 ctxt = self.m_forked_contexts[obj]
                 del self.m_forked_contexts[obj]
-                # Kill the drain
+                draining = True
 
         uvm_debug(self, 'm_raise', obj.get_name() + " ENDING FUNC")
-        # TODO
-        #if UVM_USE_PROCESS_CONTAINER:
-        #    self.m_drain_proc[obj].kill()
-        #    del self.m_drain_proc[obj]
-        #else:
-        #    self.m_drain_proc[obj].p.kill()
-        #    del self.m_drain_proc[obj]
         uvm_debug(self, 'm_raise', obj.get_name() + " NEVER GETS HERE")
 
         if ctxt is None:
@@ -560,8 +555,9 @@ class UVMObjection(UVMReportObject):
                         self.m_propagate(obj, source_obj, description, diff_count, 0, 0)
 
             # Cleanup
-            ctxt.clear()
-            UVMObjection.m_context_pool.append(ctxt)
+            if not draining:
+                ctxt.clear()
+                UVMObjection.m_context_pool.append(ctxt)
         #  endfunction
 
     #  // Function: drop_objection
@@ -810,27 +806,12 @@ class UVMObjection(UVMReportObject):
 
             # Move it in to forked (so re-raise can figure out props)
             objection.m_forked_contexts[ctxt.obj] = ctxt
-            # Save off our process handle, so a re-raise can kill it...
-
-            # TODO
-            #if UVM_USE_PROCESS_CONTAINER == 0:
-            #    objection.m_drain_proc[ctxt.obj] = process::self()
-            #else:
-            #    process_container_c c = new(process::self())
-            #    objection.m_drain_proc[ctxt.obj]=c
-
             # Execute the forked drain
             await objection.m_forked_drain(ctxt.obj, ctxt.source_obj, ctxt.description,
                     ctxt.count, 1)
             # Cleanup if we survived (no re-raises)
-            if ctxt.obj in objection.m_drain_proc:
-                del objection.m_drain_proc[ctxt.obj]
-            else:
-                pass
-
-            # tpoikela: Added check since ctxt.obj becomes None
-            #if ctxt.obj in objection.m_forked_contexts:
-            del objection.m_forked_contexts[ctxt.obj]
+            if objection.m_forked_contexts.get(ctxt.obj) is ctxt:
+                del objection.m_forked_contexts[ctxt.obj]
             # Clear out the context object (prevent memory leaks)
             ctxt.clear()
             # Save the context in the pool for later reuse
@@ -847,10 +828,14 @@ class UVMObjection(UVMReportObject):
 
     async def m_forked_drain(self, obj, source_obj, description="", count=1,
             in_top_thread=0):
+        # A re-raise (or clear) during the drain removes this context
+        ctxt = self.m_forked_contexts.get(obj)
 
-        if obj in self.m_drain_time:
+        if self.m_drain_time.get(obj, 0) > 0:
             # TODO `uvm_delay(self.m_drain_time[obj])
             await Timer(self.m_drain_time[obj])
+            if self.m_forked_contexts.get(obj) is not ctxt:
+                return
 
         if self.m_trace_mode:
             self.m_report(obj,source_obj,description,count,"all_dropped")
@@ -860,6 +845,8 @@ class UVMObjection(UVMReportObject):
         # wait for all_dropped cbs to complete
         await uvm_zero_delay()
         # TODO wait fork
+        if self.m_forked_contexts.get(obj) is not ctxt:
+            return
 
         # we are ready to delete the 0-count entries for the current
         # object before propagating up the hierarchy.
-- 
2.43.0


From 6ffc9dc0ffd90b2e2571ca2a2c07ee8a1fc4d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 006/131] fix: UVMObjection.clear() with drops that are
 scheduled or draining

It failed with AttributeError or KeyError.
---
 src/uvm/base/uvm_objection.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index d2b626e..cf0674a 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -738,23 +738,12 @@ class UVMObjection(UVMReportObject):
         # entries... clear out one, free the other.
         self.m_scheduled_contexts = {}
         while len(self.m_forked_list) > 0:
-            self.m_forked_list[0].clear()
-            UVMObjection.m_context_pool.append(self.m_forked_list[0])
-            front = self.m_forked_list[0]
-            self.m_forked_list[0].remove(front)
-
-        # running drains have a context and a process
-        for o in self.m_forked_contexts:
-            if UVM_USE_PROCESS_CONTAINER:
-                self.m_drain_proc[o].kill()
-                del self.m_drain_proc[o]
-            else:
-                self.m_drain_proc[o].p.kill()
-                del self.m_drain_proc[o]
+            front = self.m_forked_list.pop(0)
+            front.clear()
+            UVMObjection.m_context_pool.append(front)
 
-            self.m_forked_contexts[o].clear()
-            UVMObjection.m_context_pool.append(self.m_forked_contexts[o])
-            del self.m_forked_contexts[o]
+        # running drains give up once they see that their context is gone
+        self.m_forked_contexts = {}
 
         self.m_top_all_dropped = False
         self.m_cleared = 1
-- 
2.43.0


From 24be4a804257c9c08896fca6cdd7e9fc121ab0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 007/131] fix: UVMObjection.wait_for() waits for the next event

The events were never cleared, so a wait_for() returned at once if the event had occurred
before while another process was still waiting for an event of the same object.
---
 src/uvm/base/uvm_objection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index cf0674a..f7d2dec 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -749,6 +749,7 @@ class UVMObjection(UVMReportObject):
         self.m_cleared = 1
         if self.m_top in self.m_events:
             self.m_events[self.m_top].all_dropped.set()
+            self.m_events[self.m_top].all_dropped.clear()
 
     #  // m_execute_scheduled_forks
     #  // -------------------------
@@ -894,6 +895,7 @@ class UVMObjection(UVMReportObject):
         uvm_do_callbacks(self, UVMObjectionCallback, 'raised', self,obj,source_obj,description,count)
         if obj in self.m_events:
             self.m_events[obj].raised.set()
+            self.m_events[obj].raised.clear()
 
     #  // Function: dropped
     #  //
@@ -911,6 +913,7 @@ class UVMObjection(UVMReportObject):
         uvm_do_callbacks(self,UVMObjectionCallback,'dropped', self,obj,source_obj,description,count)
         if obj in self.m_events:
             self.m_events[obj].dropped.set()
+            self.m_events[obj].dropped.clear()
 
 
     async def all_dropped(self, obj, source_obj, description, count):
@@ -932,6 +935,7 @@ class UVMObjection(UVMReportObject):
         await uvm_do_callbacks_async(self, UVMObjectionCallback, 'all_dropped', self,obj, source_obj, description, count)
         if obj in self.m_events:
             self.m_events[obj].all_dropped.set()
+            self.m_events[obj].all_dropped.clear()
         if obj == self.m_top:
             self.m_top_all_dropped = 1
 
-- 
2.43.0


From 9142daa2d516cf515c34413eaf0e536344d48b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 008/131] fix: UVMObjection trace mode and copy() do not fail

m_report() used SystemVerilog string methods and an undefined name; do_copy() read rhs.self
and shared the counts with the original.
---
 src/uvm/base/uvm_objection.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index f7d2dec..8d4327b 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -295,24 +295,25 @@ class UVMObjection(UVMReportObject):
             uvm_report_info("OBJTN_TRC",
                 sv.sformatf("Object %0s %0s %0d objection(s)%s: count=%0d  total=%0d",
                 name, action, count, descr, _count, _total), UVM_NONE)
+            return
         else:
             cpath = 0
             last_dot = 0
             sname = source_obj.get_full_name()
             nm = obj.get_full_name()
-            _max = sname.len()
-            if sname.len() > nm.len():
-                _max = nm.len()
+            _max = len(sname)
+            if len(sname) > len(nm):
+                _max = len(nm)
 
             # For readability, only print the part of the source obj hierarchy underneath
             # the current object.
-            while ((sname[cpath] == nm[cpath]) and (cpath < _max)):
+            while cpath < _max and sname[cpath] == nm[cpath]:
                 if (sname[cpath] == "."):
                     last_dot = cpath
                 cpath += 1
 
             if last_dot:
-                sname = sname.substr(last_dot+1, sname.len())
+                sname = sname[last_dot+1:]
 
         name = obj.get_full_name()
         if name == "":
@@ -1143,10 +1144,10 @@ class UVMObjection(UVMReportObject):
 
     def do_copy(self, rhs):
         _rhs = rhs
-        self.m_source_count = _rhs.m_source_count
-        self.m_total_count  = _rhs.m_total_count
-        self.m_drain_time   = _rhs.m_drain_time
-        self.m_prop_mode    = _rhs.self.m_prop_mode
+        self.m_source_count = dict(_rhs.m_source_count)
+        self.m_total_count  = dict(_rhs.m_total_count)
+        self.m_drain_time   = dict(_rhs.m_drain_time)
+        self.m_prop_mode    = _rhs.m_prop_mode
 
 
 # Have a pool of context objects to use
-- 
2.43.0


From 2e5c18fb2eea994247329200b7ce0cf2c8a6381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 009/131] fix: UVMEvent.trigger() with registered callbacks

Only the last callback's pre_trigger was called, and the event was then never triggered.
---
 src/uvm/base/uvm_event.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_event.py b/src/uvm/base/uvm_event.py
index 0255789..2a82bde 100644
--- a/src/uvm/base/uvm_event.py
+++ b/src/uvm/base/uvm_event.py
@@ -326,13 +326,13 @@ class UVMEvent(UVMEventBase):  # (type T=uvm_object) extends uvm_event_base
         Args:
             data (any): Data associated with the trigger.
         """
-        skip = False
+        skip = 0
         if self.callbacks.size() > 0:
             for i in range(0, self.callbacks.size()):
                 #uvm_event_callback#(T) tmp=self.callbacks[i]
                 tmp = self.callbacks.get(i)
-            skip = skip + tmp.pre_trigger(self, data)
-        if skip is False:
+                skip = skip + int(bool(tmp.pre_trigger(self, data)))
+        if skip == 0:
             self.m_event.set(data)
             if self.callbacks.size() > 0:
                 for i in range(0, self.callbacks.size()):
-- 
2.43.0


From 07cf44ea9b15dc289844e9f1717753127e53dcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 010/131] fix: UVMEvent.wait_trigger() waits for the next
 trigger

The underlying event stayed set when nobody was waiting, so a later wait_trigger()
(and wait_ptrigger() in a later time-slice) returned at once.
---
 src/uvm/base/uvm_event.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_event.py b/src/uvm/base/uvm_event.py
index 2a82bde..d707658 100644
--- a/src/uvm/base/uvm_event.py
+++ b/src/uvm/base/uvm_event.py
@@ -50,6 +50,7 @@ class UVMEventBase(UVMObject):
         """
         super().__init__(name)
         self.m_event = Event()
+        self.m_ptrigger_time = None  # time-slice of the last trigger
         self.num_waiters = 0
         self.on = False
         self.on_event = Event("on_event_" + name)
@@ -145,7 +146,6 @@ class UVMEventBase(UVMObject):
         """
         self.num_waiters += 1
         await self.m_event.wait()
-        self.m_event.clear()
 
 
     async def wait_ptrigger(self):
@@ -155,11 +155,10 @@ class UVMEventBase(UVMObject):
         certain race conditions. If this method is called after the trigger but
         within the same time-slice, the caller returns immediately.
         """
-        if self.m_event.fired:
+        if self.m_ptrigger_time is not None and self.m_ptrigger_time == sv.realtime('step'):
             return
         self.num_waiters += 1
         await self.m_event.wait()
-        self.m_event.clear()
 
     def get_trigger_time(self):
         """
@@ -205,6 +204,7 @@ class UVMEventBase(UVMObject):
         if wakeup:
             self.m_event.set()
         self.m_event = Event()
+        self.m_ptrigger_time = None
         self.num_waiters = 0
         self.set_value("on", False)
         self.trigger_time = 0
@@ -334,6 +334,8 @@ class UVMEvent(UVMEventBase):  # (type T=uvm_object) extends uvm_event_base
                 skip = skip + int(bool(tmp.pre_trigger(self, data)))
         if skip == 0:
             self.m_event.set(data)
+            self.m_event.clear()
+            self.m_ptrigger_time = sv.realtime('step')
             if self.callbacks.size() > 0:
                 for i in range(0, self.callbacks.size()):
                     #uvm_event_callback#(T) tmp=self.callbacks[i]
-- 
2.43.0


From f4b32b83e922cf34d14d70e767dd47db6e539e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 011/131] fix: UVMBarrier can be created and releases its
 waiters

The constructor failed on a set used as a name, and wait_for() never ran m_trigger().
---
 src/uvm/base/uvm_barrier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_barrier.py b/src/uvm/base/uvm_barrier.py
index 370ac93..9bf3c42 100644
--- a/src/uvm/base/uvm_barrier.py
+++ b/src/uvm/base/uvm_barrier.py
@@ -46,7 +46,7 @@ class UVMBarrier(UVMObject):
     #
     def __init__(self, name="", threshold=0):
         super().__init__(name)
-        self.m_event = UVMEvent({"barrier_",name})
+        self.m_event = UVMEvent("barrier_" + name)
         self.threshold = threshold
         self.num_waiters = 0
         self.auto_reset = 1
@@ -68,7 +68,7 @@ class UVMBarrier(UVMObject):
         if self.num_waiters >= self.threshold:
             if not self.auto_reset:
                 self.at_threshold=1
-            self.m_trigger()
+            await self.m_trigger()
             return
 
         await self.m_event.wait_trigger()
-- 
2.43.0


From 67e2f98e1e4919c000fb488798e7e10e781baba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:10 +0000
Subject: [PATCH 012/131] fix: UVMEvent.add_callback(append=False) on an event
 without callbacks

---
 src/uvm/base/uvm_event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_event.py b/src/uvm/base/uvm_event.py
index d707658..b25c91f 100644
--- a/src/uvm/base/uvm_event.py
+++ b/src/uvm/base/uvm_event.py
@@ -378,7 +378,7 @@ class UVMEvent(UVMEventBase):  # (type T=uvm_object) extends uvm_event_base
         if append is True:
             self.callbacks.push_back(cb)
         else:
-            self.callbacks.insert(0, cb)
+            self.callbacks.push_front(cb)
 
 
     def delete_callback(self, cb):
-- 
2.43.0


From 7aac62a6e1560d91c7ee5bda8ecde2300e6682aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 013/131] fix: UVMSequencer can wait for a sequence to become
 relevant

---
 src/uvm/seq/uvm_sequencer_base.py | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index 536f184..1e66286 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -1148,30 +1148,19 @@ class UVMSequencerBase(UVMComponent):
 
     async def _fork_first_proc(self, is_relevant_entries):
         started_forks = []
-        #fork
-        forked_proc1 = cocotb.start_soon(self._fork_first_proc_sub_fork1(is_relevant_entries))
-        started_forks.append(forked_proc1)
-        # The other path in the fork is for any queue entry to change
-        forked_proc2 = self.m_wait_arb_not_equal()
-        started_forks.append(forked_proc2)
-        ## await started_forks  # join_any
-        await sv.fork_join_any(started_forks)
-        # disable fork
-        for p in started_forks:
-            p.kill()  # type: ignore
-
-
-    async def _fork_first_proc_sub_fork1(self, is_relevant_entries):
         # One path in fork is for any wait_for_relevant to return
-        fork_procs_join_none = []
         self.set_value('m_is_relevant_completed', False)
         for i in range(len(is_relevant_entries)):
-            #fork
-            forked_proc = cocotb.start_soon(self._rel_entry_fork_proc(i, is_relevant_entries))
-            fork_procs_join_none.append(forked_proc)
-            #join_none
-        await wait(lambda: self.m_is_relevant_completed > 0,
-                   self.m_event_value_changed)
+            started_forks.append(cocotb.start_soon(
+                self._rel_entry_fork_proc(i, is_relevant_entries)))
+        forked_proc1 = cocotb.start_soon(wait(
+            lambda: self.m_is_relevant_completed > 0, self.m_event_value_changed))
+        # The other path in the fork is for any queue entry to change
+        forked_proc2 = cocotb.start_soon(self.m_wait_arb_not_equal())
+        await sv.fork_join_any([forked_proc1, forked_proc2])
+        # disable fork
+        for p in started_forks + [forked_proc1, forked_proc2]:
+            p.kill()
 
     #  extern protected function int    m_get_seq_item_priority(uvm_sequence_request seq_q_entry)
     #
-- 
2.43.0


From 80a98347e6d9b22016b41fb825f7c0c9a4b22af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 014/131] fix: responses sent through UVMSequencer.rsp_export
 are delivered

---
 src/uvm/seq/uvm_sequencer_param_base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/uvm/seq/uvm_sequencer_param_base.py b/src/uvm/seq/uvm_sequencer_param_base.py
index 2a12357..928ede9 100644
--- a/src/uvm/seq/uvm_sequencer_param_base.py
+++ b/src/uvm/seq/uvm_sequencer_param_base.py
@@ -324,6 +324,14 @@ class UVMSequencerParamBase(UVMSequencerBase):
             self.uvm_report_info("Sequencer", sv.sformatf(INFO_MSG1, t.get_sequence_id()))
         #endfunction
 
+    def analysis_write(self, t):
+        """
+         /* local */ extern virtual function void analysis_write(uvm_sequence_item t)
+        Args:
+            t:
+        """
+        self.put_response(t)
+
     def build_phase(self, phase):
         """
          /* local */ extern virtual function void build_phase(uvm_phase phase)
-- 
2.43.0


From dd27cebe7d7d22f7d4dc11c2ab55c25c5cc35c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:53 +0000
Subject: [PATCH 015/131] fix: UVMSequencer.item_done() wakes the sequence that
 waits for it

---
 src/uvm/seq/uvm_sequencer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/seq/uvm_sequencer.py b/src/uvm/seq/uvm_sequencer.py
index e4452d4..db12f61 100644
--- a/src/uvm/seq/uvm_sequencer.py
+++ b/src/uvm/seq/uvm_sequencer.py
@@ -180,7 +180,7 @@ class UVMSequencer(UVMSequencerParamBase):
         else:
             t = t[0]
             self.m_wait_for_item_sequence_id = t.get_sequence_id()
-            self.m_wait_for_item_transaction_id = t.get_transaction_id()
+            self.set_value('m_wait_for_item_transaction_id', t.get_transaction_id())
 
         if item is not None:
             self.seq_item_export.put_response(item)
-- 
2.43.0


From fed637863c173351c759ca8dc541a10ef69ca94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 016/131] fix: get_response() by id is not missed when the
 response queue size is unchanged

---
 src/uvm/seq/uvm_sequence_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/seq/uvm_sequence_base.py b/src/uvm/seq/uvm_sequence_base.py
index 318573a..0ab468b 100644
--- a/src/uvm/seq/uvm_sequence_base.py
+++ b/src/uvm/seq/uvm_sequence_base.py
@@ -1280,8 +1280,8 @@ class UVMSequenceBase(UVMSequenceItem):
                     self.m_resp_queue_event.set()
                     return
             #wait (self.response_queue.size() != queue_size)
-            await wait(lambda: self.response_queue.size() != queue_size,
-                       self.m_resp_queue_event)
+            await self.m_resp_queue_event.wait()
+            self.m_resp_queue_event.clear()
 
 
     def m_get_sqr_sequence_id(self, sequencer_id, update_sequence_id):
-- 
2.43.0


From fb6ee8b6df6082634d02011d66923f990261db68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 017/131] fix: get_next_item() after try_next_item() without
 item_done is reported

---
 src/uvm/seq/uvm_sequencer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/seq/uvm_sequencer.py b/src/uvm/seq/uvm_sequencer.py
index db12f61..b8ef4b0 100644
--- a/src/uvm/seq/uvm_sequencer.py
+++ b/src/uvm/seq/uvm_sequencer.py
@@ -151,7 +151,7 @@ class UVMSequencer(UVMSequencerParamBase):
         self.arb_sequence_q.delete(selected_sequence)
         self.m_update_lists()
         self.sequence_item_requested = True
-        self.get_next_item_called = 1
+        self.get_next_item_called = True
 
         # give it one NBA to put a new item in the fifo
         await self.wait_for_sequences()
-- 
2.43.0


From 73ac35be67bd5ee043f8acee9a64a239795794d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 018/131] fix: UVMSequenceBase.wait_for_sequence_state() waits
 until a state of the mask is reached

---
 src/uvm/seq/uvm_sequence_base.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/uvm/seq/uvm_sequence_base.py b/src/uvm/seq/uvm_sequence_base.py
index 0ab468b..33529b7 100644
--- a/src/uvm/seq/uvm_sequence_base.py
+++ b/src/uvm/seq/uvm_sequence_base.py
@@ -166,6 +166,7 @@ class UVMSequenceBase(UVMSequenceItem):
             name (str): Name of the sequence
         """
         UVMSequenceItem.__init__(self, name)
+        self.m_state_event = Event("sequence_state_event")
         self.m_sequence_state = UVM_CREATED
         self.m_wait_for_grant_semaphore = 0
         self.m_init_phase_daps(1)
@@ -205,6 +206,17 @@ class UVMSequenceBase(UVMSequenceItem):
         return False
 
 
+    @property
+    def m_sequence_state(self):
+        return self._m_sequence_state
+
+    @m_sequence_state.setter
+    def m_sequence_state(self, state):
+        self._m_sequence_state = state
+        # wake up wait_for_sequence_state()
+        self.m_state_event.set()
+        self.m_state_event.clear()
+
     def get_sequence_state(self):
         """
           Function: get_sequence_state
@@ -233,12 +245,8 @@ class UVMSequenceBase(UVMSequenceItem):
             state_mask:
         Raises:
         """
-        state = self.m_sequence_state & state_mask
-        if state in self.m_events:
-            await self.m_events[state].wait()
-        else:
-            raise Exception("Cannot wait for state " + str(state)
-                    + " - not implemented")
+        while (self.m_sequence_state & state_mask) == 0:
+            await self.m_state_event.wait()
 
     def get_tr_handle(self):
         """
-- 
2.43.0


From ae7ad76054490a0ada6002d74bf7ce59edb6036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:35 +0000
Subject: [PATCH 019/131] fix: implement UVMSequenceBase.kill(), used when a
 phase ends and by stop_sequences()

---
 src/uvm/seq/uvm_sequence_base.py  | 61 +++++++++++++------------------
 src/uvm/seq/uvm_sequencer_base.py |  2 +-
 2 files changed, 27 insertions(+), 36 deletions(-)

diff --git a/src/uvm/seq/uvm_sequence_base.py b/src/uvm/seq/uvm_sequence_base.py
index 33529b7..d822071 100644
--- a/src/uvm/seq/uvm_sequence_base.py
+++ b/src/uvm/seq/uvm_sequence_base.py
@@ -906,28 +906,20 @@ class UVMSequenceBase(UVMSequenceItem):
     #  // with the other sequencer(s) using the sequencer unregister_sequence()
     #  // method.
     #
-    #  function void kill()
-    #    if (m_sequence_process is not None) begin
-    #      // If we are not connected to a sequencer, then issue
-    #      // kill locally.
-    #      if (self.m_sequencer == None) begin
-    #        m_kill()
-    #        // We need to drop the objection if we raised it...
-    #        if (get_automatic_phase_objection()) begin
-    #           m_safe_drop_starting_phase("automatic phase objection")
-    #        end
-    #        return
-    #      end
-    #      // If we are attached to a sequencer, then the sequencer
-    #      // will clear out queues, and then kill this sequence
-    #      self.m_sequencer.kill_sequence(this)
-    #      // We need to drop the objection if we raised it...
-    #      if (get_automatic_phase_objection()) begin
-    #         m_safe_drop_starting_phase("automatic phase objection")
-    #      end
-    #      return
-    #    end
-    #  endfunction
+    def kill(self):
+        if self.m_sequence_process is None:
+            return
+        if self.m_sequencer is None:
+            # If we are not connected to a sequencer, then issue
+            # kill locally.
+            self.m_kill()
+        else:
+            # If we are attached to a sequencer, then the sequencer
+            # will clear out queues, and then kill this sequence
+            self.m_sequencer.kill_sequence(self)
+        # We need to drop the objection if we raised it...
+        if self.get_automatic_phase_objection():
+            self.m_safe_drop_starting_phase("automatic phase objection")
 
 
     def do_kill(self):
@@ -941,19 +933,18 @@ class UVMSequenceBase(UVMSequenceItem):
         return
 
 
-    #  function void m_kill()
-    #    do_kill()
-    #    foreach(children_array[i]) begin
-    #       i.kill()
-    #    end
-    #    if (m_sequence_process is not None) begin
-    #      m_sequence_process.kill
-    #      m_sequence_process = None
-    #    end
-    #    m_sequence_state = UVM_STOPPED
-    #    if ((self.m_parent_sequence is not None) && (self.m_parent_sequence.children_array.exists(this)))
-    #      self.m_parent_sequence.children_array.delete(this)
-    #  endfunction
+    def m_kill(self):
+        self.do_kill()
+        for child in list(self.children_array):
+            child.kill()
+        self.m_sequence_state = UVM_STOPPED
+        if self.m_sequence_process is not None:
+            proc = self.m_sequence_process
+            self.m_sequence_process = None
+            proc.kill()
+        if (self.m_parent_sequence is not None and
+                self in self.m_parent_sequence.children_array):
+            del self.m_parent_sequence.children_array[self]
 
 
     """
diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index 1e66286..9d2faed 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -1063,7 +1063,7 @@ class UVMSequencerBase(UVMComponent):
         # when deleting all sequences
         if sequence_id == -1:
             if self.reg_sequences.has_first():
-                return self.reg_sequences.first()
+                return self.reg_sequences[self.reg_sequences.first()]
             return None
 
         if not self.reg_sequences.exists(sequence_id):
-- 
2.43.0


From 99c38b19cd7abed5e597c84e49b1046489477df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 020/131] fix: set_priority with PRI_HIGH moves a resource to
 the front, so the last config set wins

---
 src/uvm/base/uvm_resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index 0a8617d..9f233af 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -1514,7 +1514,7 @@ class UVMResourcePool:
         q.pop(i)
 
         if pri == PRI_HIGH:
-            q.append(rsrc)
+            q.insert(0, rsrc)
         elif pri == PRI_LOW:
             q.append(rsrc)
 
-- 
2.43.0


From 672e0423393b4e0f895ef11be727bbb75afd7337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 021/131] fix: scopes given as /regular expressions/ match

---
 src/uvm/base/sv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index 8a4a0f4..622a3ff 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -44,6 +44,9 @@ RET_OK = 0
 
 
 def uvm_re_match(rex, _str):
+    # slashes around a regular expression are not part of it
+    if len(rex) > 1 and rex[0] == "/" and rex[-1] == "/":
+        rex = rex[1:-1]
     m = re.search(rex, _str)
     if m is not None:
         return RET_OK
-- 
2.43.0


From 4f0fc8ccf61c92cba377e1a8219cb135f3f56127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 022/131] fix: UVMRoot.find() of a component that does not
 exist returns None

---
 src/uvm/base/uvm_root.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 5bbd5dc..6b253b3 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -415,8 +415,8 @@ class UVMRoot(UVMComponent):
 
         if len(comp_list) == 0:
             uvm_report_warning("CMPNFD",
-              "Component matching '", comp_match,
-               "' was not found in the list of uvm_components", UVM_NONE)
+              "Component matching '" + comp_match
+              + "' was not found in the list of uvm_components", UVM_NONE)
             return None
 
         return comp_list[0]
-- 
2.43.0


From b704f71d0c2ef9afab108738c1789fb16dee52c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 023/131] fix: UVMResourcePool.sort_by_precedence() sorts by
 precedence

---
 src/uvm/base/uvm_resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index 9f233af..150b48b 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -1283,7 +1283,7 @@ class UVMResourcePool:
                 _all[r.precedence] = UVMQueue()
             _all[r.precedence].push_front(r)  # since we will push_front in the final
         qq = []
-        for key in _all:
+        for key in sorted(_all):
             for j in range(len(_all[key])):
                 r = _all[key].get(j)
                 #qq.push_front(r)
-- 
2.43.0


From 063c066a936ab68d4d6d0cec0eee00fbffa5b13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 024/131] fix: automatic configuration of fields and is_active
 uses the highest precedence setting

---
 src/uvm/base/uvm_component.py | 3 ++-
 src/uvm/comps/uvm_agent.py    | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 032489a..0c26219 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -1216,10 +1216,11 @@ class UVMComponent(UVMReportObject):
         # // rq is in precedence order now, so we have to go through in reverse
         # // order to do the settings.
         #  for(int i=rq.size()-1; i>=0; --i):
-        for i in range(len(rq)):
+        for i in range(len(rq) - 1, -1, -1):
 
             r = rq[i]
             name = r.get_name()
+            j = 0
             # // does name have brackets [] in it?
             while j < len(name):
                 if (name[j] == "[" or name[j] == "."):
diff --git a/src/uvm/comps/uvm_agent.py b/src/uvm/comps/uvm_agent.py
index 34afc24..632d80f 100644
--- a/src/uvm/comps/uvm_agent.py
+++ b/src/uvm/comps/uvm_agent.py
@@ -76,6 +76,7 @@ class UVMAgent(UVMComponent):
             rsrc = rq[i]  # uvm_resource_base
             rap = rsrc
             self.is_active = rap.read(self)
+            break
 
     type_name = "uvm_agent"
 
-- 
2.43.0


From 8bd0115cf243f4e5343a8c98d5de6bbeb0c22a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:00 +0000
Subject: [PATCH 025/131] fix: UVMResource.get_type() returns the type on the
 first call, too

---
 src/uvm/base/uvm_resource.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index 150b48b..52fbe0b 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -654,8 +654,7 @@ class UVMResource(UVMResourceBase):
     def get_type(cls):
         if UVMResource.my_type is None:
             UVMResource.my_type = UVMResource()
-        else:
-            return UVMResource.my_type
+        return UVMResource.my_type
 
     def get_type_handle(self):
         """
-- 
2.43.0


From 5415446234e1c3d23582806550b3fc04f4393966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:41 +0000
Subject: [PATCH 026/131] fix: a type override by name does not add the
 override to the table of registered names

---
 src/uvm/base/uvm_factory.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 91c943a..68b29ed 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -333,7 +333,6 @@ class UVMDefaultFactory(UVMFactory):
                            ovrd_type=override_type)
 
             self.m_type_overrides.append(override)
-            self.m_type_names.add(original_type_name, override.ovrd_type)
 
     def check_inst_override_exists(self, original_type, override_type,
             full_inst_path):
-- 
2.43.0


From 34fe32533a0e0e5918a7caaca291ee597e8ecfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:41 +0000
Subject: [PATCH 027/131] fix: a loop of factory overrides is reported instead
 of raising IndexError

---
 src/uvm/base/uvm_factory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 68b29ed..4b02603 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -665,12 +665,13 @@ class UVMDefaultFactory(UVMFactory):
             qc = self.m_inst_override_queues[requested_type]
 
         for index in range(0, len(self.m_override_info)):
-            if self.m_override_info[index].orig_type == requested_type:
+            info = self.m_override_info[index]
+            if info.orig_type == requested_type:
                 uvm_report_error("OVRDLOOP", "Recursive loop detected while finding override.", UVM_NONE)
                 if UVMDefaultFactory.m_debug_pass is False:
                     self.debug_create_by_type(requested_type, full_inst_path)
 
-                self.m_override_info[index].used += 1
+                info.used += 1
                 return requested_type
 
         # inst override; return first match; takes precedence over type overrides
-- 
2.43.0


From 2294bb026f03f2ca45e6ecd394b3c82449e978ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:33 +0000
Subject: [PATCH 028/131] fix: wait_for_state() returns at once in the awaited
 state, and does not steal wakeups

---
 src/uvm/base/uvm_phase.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index a9440af..8dcba82 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -919,11 +919,9 @@ class UVMPhase(UVMObject):
 
 
     async def _wait_state_change_func(self, func):
-        while True:
-            await self.m_phase_set_state_event.wait()
+        while not func():
             self.m_phase_set_state_event.clear()
-            if func():
-                break
+            await self.m_phase_set_state_event.wait()
 
     #
     #
-- 
2.43.0


From c2e2380fbeb6dad47fd45662db75174aa6ed83eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:33 +0000
Subject: [PATCH 029/131] fix: the tasks of components still running when their
 phase ends are stopped

---
 src/uvm/base/uvm_phase.py      | 4 ++++
 src/uvm/base/uvm_task_phase.py | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 8dcba82..eadebfd 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -239,6 +239,7 @@ class UVMPhase(UVMObject):
         self.phase_done = None  # uvm_objection
 
         self.m_phase_proc = None  # TODO process
+        self.m_phase_procs = []  # tasks of the components in a task phase
         self.m_num_procs_not_yet_returned = 0
 
         self.m_is_task_phase = False
@@ -1442,6 +1443,9 @@ class UVMPhase(UVMObject):
             if self.m_phase_proc is not None:
                 self.m_phase_proc.kill()
                 self.m_phase_proc = None
+            for proc in self.m_phase_procs:
+                proc.kill()
+            self.m_phase_procs = []
             await uvm_zero_delay()
             #0; // LET ANY WAITERS WAKE UP
             uvm_debug(self, "execute_phase", "Cleanup DONE |" + self.m_imp.get_name() + "|")
diff --git a/src/uvm/base/uvm_task_phase.py b/src/uvm/base/uvm_task_phase.py
index aa18b20..b51d8f3 100644
--- a/src/uvm/base/uvm_task_phase.py
+++ b/src/uvm/base/uvm_task_phase.py
@@ -192,6 +192,7 @@ class UVMTaskPhase(UVMPhase):
         #proc.srandom(uvm_create_random_seed(phase.get_type_name(), comp.get_full_name()))
         #phase.m_num_procs_not_yet_returned += 1
         proc = cocotb.start_soon(self._execute_fork_join_none(comp,phase))
+        phase.m_phase_procs.append(proc)
         #phase.m_num_procs_not_yet_returned -= 1
         await uvm_zero_delay()
         #join_none
-- 
2.43.0


From 2782622ce5e51a4521c4c8767f5323341032e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:33 +0000
Subject: [PATCH 030/131] fix: phase traversal does not depend on the child
 pointer that user code also moves

---
 src/uvm/base/uvm_bottomup_phase.py | 8 +++-----
 src/uvm/base/uvm_topdown_phase.py  | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/uvm/base/uvm_bottomup_phase.py b/src/uvm/base/uvm_bottomup_phase.py
index 637bb38..a8cd0ce 100644
--- a/src/uvm/base/uvm_bottomup_phase.py
+++ b/src/uvm/base/uvm_bottomup_phase.py
@@ -67,11 +67,9 @@ class UVMBottomupPhase(UVMPhase):
         phase_domain = phase.get_domain()
         comp_domain = comp.get_domain()
 
-        if comp.has_first_child():
-            child = comp.get_first_child()
-            while child is not None:
-                self.traverse(child, phase, state)
-                child = comp.get_next_child()
+        # the shared child pointer of comp may be moved by what the children do
+        for child in comp.m_children_ordered:
+            self.traverse(child, phase, state)
 
         if UVMPhase.m_phase_trace:
             dom_name = "unknown"
diff --git a/src/uvm/base/uvm_topdown_phase.py b/src/uvm/base/uvm_topdown_phase.py
index 0b0e032..a516dc3 100644
--- a/src/uvm/base/uvm_topdown_phase.py
+++ b/src/uvm/base/uvm_topdown_phase.py
@@ -102,11 +102,9 @@ class UVMTopdownPhase(UVMPhase):
             else:
                 uvm_report_fatal("PH_BADEXEC","topdown phase traverse internal error")
 
-        if comp.has_first_child():
-            child = comp.get_first_child()
-            while child is not None:
-                self.traverse(child, phase, state)
-                child = comp.get_next_child()
+        # the shared child pointer of comp may be moved by what the children do
+        for child in comp.m_children_ordered:
+            self.traverse(child, phase, state)
 
     def execute(self, comp, phase):
         """
-- 
2.43.0


From 54d3765b388d092738bc5a8e7d3ce675f292f3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:41 +0000
Subject: [PATCH 031/131] fix: drop_objection(None) of the reset phase is
 accepted as in other phases

---
 src/uvm/base/uvm_phase.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index eadebfd..e297d1b 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -799,12 +799,7 @@ class UVMPhase(UVMObject):
     #  // The drop is expected to be matched with an earlier raise.
     #  //
     def drop_objection(self, obj, description="", count=1):
-        if self.get_name() == 'reset':
-            print("EEE object dropping reset obj now " + obj.get_name())
         if self.phase_done is not None:
-            if self.get_name() == 'reset':
-                print("Dropping reset objection\n" +
-                        self.phase_done.convert2string())
             self.phase_done.drop_objection(obj,description,count)
         else:
             self.m_report_null_objection(obj, description, count, "drop")
-- 
2.43.0


From 0299b3ea88ad3ac36eef40af1c46b4a2d4ec4b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:07 +0000
Subject: [PATCH 032/131] fix: adding a phase copies the links of its
 neighbours, and unlinks both sides of a split edge

---
 src/uvm/base/uvm_phase.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index e297d1b..069e46a 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -524,15 +524,15 @@ class UVMPhase(UVMObject):
 
         # INSERT IN PARALLEL WITH 'WITH' PHASE
         if with_phase is not None:
-            begin_node.m_predecessors = with_phase.m_predecessors
-            end_node.m_successors = with_phase.m_successors
+            begin_node.m_predecessors = dict(with_phase.m_predecessors)
+            end_node.m_successors = dict(with_phase.m_successors)
             for pred in with_phase.m_predecessors:
                 pred.m_successors[begin_node] = 1
             for succ in with_phase.m_successors:
                 succ.m_predecessors[end_node] = 1
         # INSERT BEFORE PHASE
         elif before_phase is not None and after_phase is None:
-            begin_node.m_predecessors = before_phase.m_predecessors
+            begin_node.m_predecessors = dict(before_phase.m_predecessors)
             end_node.m_successors[before_phase] = 1
             for pred in before_phase.m_predecessors:
                 del pred.m_successors[before_phase]
@@ -541,7 +541,7 @@ class UVMPhase(UVMObject):
             before_phase.m_predecessors[end_node] = 1
         # INSERT AFTER PHASE
         elif before_phase is None and after_phase is not None:
-            end_node.m_successors = after_phase.m_successors
+            end_node.m_successors = dict(after_phase.m_successors)
             begin_node.m_predecessors[after_phase] = 1
             for succ in after_phase.m_successors:
                 del succ.m_predecessors[after_phase]
@@ -560,7 +560,7 @@ class UVMPhase(UVMObject):
             before_phase.m_predecessors[end_node] = 1
             if before_phase in after_phase.m_successors:
                 del after_phase.m_successors[before_phase]
-                del before_phase.m_successors[after_phase]
+                del before_phase.m_predecessors[after_phase]
 
         # Transition nodes to DORMANT state
         if new_node is None:
-- 
2.43.0


From e4da210416facf027358ca0a62f4c608efbd6082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:07 +0000
Subject: [PATCH 033/131] fix: phase lookup and is_before/is_after follow all
 branches of the schedule

---
 src/uvm/base/uvm_phase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 069e46a..f291e35 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -1015,7 +1015,8 @@ class UVMPhase(UVMObject):
                     (pred.get_schedule() == orig.get_schedule()) or
                     (pred.get_domain() == orig.get_domain())):
                 found = pred.m_find_predecessor(phase,stay_in_scope,orig)
-                return found
+                if found is not None:
+                    return found
         uvm_debug(self, 'm_find_pred', "Did not find precessors for " +
                 str(phase))
         return None
@@ -1044,7 +1045,8 @@ class UVMPhase(UVMObject):
                     (succ.get_schedule() == orig.get_schedule()) or
                     (succ.get_domain() == orig.get_domain())):
                 found = succ.m_find_successor(phase,stay_in_scope,orig)
-                return found
+                if found is not None:
+                    return found
         return None
 
 
-- 
2.43.0


From 35ee5407048bd19f5b66940b549a85be9ebc6c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 034/131] fix: phases added with or after a nested schedule are
 ordered relative to its end

---
 src/uvm/base/uvm_phase.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index f291e35..b592a75 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -467,6 +467,11 @@ class UVMPhase(UVMObject):
             uvm_fatal("PH_BAD_ADD",
                     "cannot specify both 'with' and 'before/after' phase relationships")
 
+        # after another schedule means after the last of its phases
+        if (after_phase is not None and after_phase != self and
+                after_phase.m_end_node is not None):
+            after_phase = after_phase.m_end_node
+
         if before_phase == self or after_phase == self.m_end_node or with_phase == self.m_end_node:
             uvm_fatal("PH_BAD_ADD",
                     "cannot add before begin node, after end node, or with end nodes")
@@ -525,10 +530,11 @@ class UVMPhase(UVMObject):
         # INSERT IN PARALLEL WITH 'WITH' PHASE
         if with_phase is not None:
             begin_node.m_predecessors = dict(with_phase.m_predecessors)
-            end_node.m_successors = dict(with_phase.m_successors)
+            with_end = with_phase.m_end_node or with_phase
+            end_node.m_successors = dict(with_end.m_successors)
             for pred in with_phase.m_predecessors:
                 pred.m_successors[begin_node] = 1
-            for succ in with_phase.m_successors:
+            for succ in with_end.m_successors:
                 succ.m_predecessors[end_node] = 1
         # INSERT BEFORE PHASE
         elif before_phase is not None and after_phase is None:
-- 
2.43.0


From 2039c4911843a6d878502a445897a5688a39c6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 035/131] fix: a phase does not wait for a later phase that
 shares one of its successors

---
 src/uvm/base/uvm_phase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index b592a75..a4a0359 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -1150,6 +1150,10 @@ class UVMPhase(UVMObject):
         # remove ourselves from the list
         if self.get_name() != 'final':
             del pred_of_succ[self]
+        # phases that come after this one do not run in parallel with it
+        for pred in list(pred_of_succ):
+            if self.is_before(pred):
+                del pred_of_succ[pred]
 
 
     async def m_wait_for_pred(self):
-- 
2.43.0


From 12ba09a9ca0ea0172340250ddf7b8e86e6ffbdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 036/131] fix: type-wide callbacks reach every object, disabled
 callbacks are skipped, exit_on returns its value

---
 src/uvm/base/uvm_callback.py           | 69 ++++++++++----------------
 src/uvm/macros/uvm_callback_defines.py |  2 +-
 2 files changed, 26 insertions(+), 45 deletions(-)

diff --git a/src/uvm/base/uvm_callback.py b/src/uvm/base/uvm_callback.py
index ce091e2..bb1a7ae 100644
--- a/src/uvm/base/uvm_callback.py
+++ b/src/uvm/base/uvm_callback.py
@@ -333,29 +333,23 @@ class UVMTypedCallbacks(UVMCallbacksBase):  # (type T=uvm_object) extends uvm_ca
             else:
                 cls.m_t_inst.m_tw_cb_q.insert(0, cb)
 
-        if cls.m_t_inst.m_pool.has_first():
-            obj = cls.m_t_inst.m_pool.get_first()
-            while True:
-                #if($cast(me,obj)):
-                me = obj
-                q = cls.m_t_inst.m_pool.get(obj)
-                if q is None:
-                    q = []
-                    cls.m_t_inst.m_pool.add(obj,q)
-
-                if self.m_cb_find(q,cb) == -1:
-                    if not warned:
-                        cls.m_cb_find_name(q, cb.get_name(), "object instance "
-                                + me.get_full_name())
-
-                    if ordering == UVM_APPEND:
-                        q.append(cb)
-                    else:
-                        q.insert(0, cb)
-
-                if cls.m_t_inst.m_pool.has_next() is False:
-                    break
-                #end while(m_t_inst.m_pool.next(obj))
+        for obj in cls.m_t_inst.m_pool.key_list():
+            #if($cast(me,obj)):
+            me = obj
+            q = cls.m_t_inst.m_pool.get(obj)
+            if q is None:
+                q = []
+                cls.m_t_inst.m_pool.add(obj,q)
+
+            if self.m_cb_find(q,cb) == -1:
+                if not warned:
+                    cls.m_cb_find_name(q, cb.get_name(), "object instance "
+                            + me.get_full_name())
+
+                if ordering == UVM_APPEND:
+                    q.append(cb)
+                else:
+                    q.insert(0, cb)
 
         for i in range(len(self.m_derived_types)):
             cb_pair = UVMTypeIDBase.typeid_map[self.m_derived_types[i]]
@@ -604,7 +598,8 @@ class UVMCallbacks(UVMTypedCallbacks):
                 #cast(m_base_inst, m_inst)
                 cls.m_base_inst = cls.m_inst
                 # The base inst in the super class gets set to this base inst
-                cls.m_t_inst = cls.m_base_inst
+                UVMTypedCallbacks.m_t_inst = cls.m_base_inst
+                UVMTypedCallbacks.m_t_inst.m_tw_cb_q = []
                 UVMTypeIDBase.typeid_map[cls.m_typeid] = cls.m_inst
                 UVMTypeIDBase.type_map[cls.m_b_inst] = cls.m_typeid
             else:
@@ -752,23 +747,9 @@ class UVMCallbacks(UVMTypedCallbacks):
                 cls.m_base_inst.m_pool.add(obj,q)
 
             if len(q) == 0:
-                # Need to make sure that registered report catchers are added. This
-                # way users don't need to set up uvm_report_object as a super type.
-                o = []  # uvm_report_object
-
-                if (sv.cast(o,obj, UVMReportObject)):
-                    # uvm_queue#(uvm_callback) qr
-                    UVMCallbacks.get()
-                    qr = UVMCallbacks.m_t_inst.m_tw_cb_q
-                    for i in range(len(qr)):
-                        q.append(qr[i])
-
-                # for(int i=0; i<m_t_inst.m_tw_cb_q.size(); ++i)
                 for i in range(len(cls.m_t_inst.m_tw_cb_q)):
                     q.append(cls.m_t_inst.m_tw_cb_q[i])
 
-
-            #check if already exists in the queue
             if cls.m_cb_find(q,cb) != -1:
                 uvm_report_warning("CBPREG", "Callback object " + cb.get_name()
                     + " is already registered with object " + obj.get_full_name(), UVM_NONE)
@@ -980,8 +961,8 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
-                return q[itr.m_i]  # Just return 1st index without type match
+            elif q[itr.m_i].callback_mode():
+                return q[itr.m_i]
         return None
         #  endfunction
 
@@ -1020,8 +1001,8 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
-                return q[itr.m_i]  # Just return 1st index without type match
+            elif q[itr.m_i].callback_mode():
+                return q[itr.m_i]
         return None
 
     @classmethod
@@ -1060,7 +1041,7 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
+            elif q[itr.m_i].callback_mode():
                 return q[itr.m_i]
         return None
         #  endfunction
@@ -1104,7 +1085,7 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
+            elif q[itr.m_i].callback_mode():
                 return q[itr.m_i]
         return None
 
diff --git a/src/uvm/macros/uvm_callback_defines.py b/src/uvm/macros/uvm_callback_defines.py
index 17f59f9..6df5f3b 100644
--- a/src/uvm/macros/uvm_callback_defines.py
+++ b/src/uvm/macros/uvm_callback_defines.py
@@ -254,7 +254,7 @@ async def uvm_do_obj_callbacks_async(OBJ, CB, METHOD, *args):
 #`define uvm_do_callbacks_exit_on(T,CB,METHOD,VAL) \
 #  `uvm_do_obj_callbacks_exit_on(T,CB,this,METHOD,VAL) \
 def uvm_do_callbacks_exit_on(self,CB,METHOD,VAL, *args):
-    uvm_do_obj_callbacks_exit_on(self, CB, METHOD, VAL, *args)
+    return uvm_do_obj_callbacks_exit_on(self, CB, METHOD, VAL, *args)
 
 
 #//-----------------------------------------------------------------------------
-- 
2.43.0


From ebcecac4a5a48a4bf8988d939c124b827424e86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 037/131] fix: message macros check the verbosity of the
 issuing component; reset clears all report settings; explicit set_action in a
 catcher is kept; catcher iteration skips other callbacks; severity/id sets
 are complete

---
 src/uvm/base/uvm_report_catcher.py    |  6 +++++-
 src/uvm/base/uvm_report_handler.py    |  9 +++++++++
 src/uvm/base/uvm_report_server.py     |  6 ++----
 src/uvm/macros/uvm_message_defines.py | 27 +++++++++++++++++++--------
 4 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/uvm/base/uvm_report_catcher.py b/src/uvm/base/uvm_report_catcher.py
index dae815e..6832b1e 100644
--- a/src/uvm/base/uvm_report_catcher.py
+++ b/src/uvm/base/uvm_report_catcher.py
@@ -51,6 +51,10 @@ class UVMReportCb(UVMCallbacks):
     def get_first(cls, itr, obj):
         return super().get_first(itr, obj, UVMReportCatcher)
 
+    @classmethod
+    def get_next(cls, itr, obj):
+        return super().get_next(itr, obj, UVMReportCatcher)
+
 
 UVMReportCbIter = UVMCallbackIter
 
@@ -290,7 +294,7 @@ class UVMReportCatcher(UVMCallback):
     #
     def set_action(self, action):
         self.m_modified_report_message.set_action(action)
-        self.m_set_action_called = 1
+        UVMReportCatcher.m_set_action_called = True
 
     #// Function: set_context
     #//
diff --git a/src/uvm/base/uvm_report_handler.py b/src/uvm/base/uvm_report_handler.py
index 8cf045b..6937b9e 100644
--- a/src/uvm/base/uvm_report_handler.py
+++ b/src/uvm/base/uvm_report_handler.py
@@ -361,6 +361,15 @@ class UVMReportHandler(UVMObject):
 
           Internal method for initializing report handler.
         """
+        self.id_verbosities = UVMPool()
+        self.severity_id_verbosities = {}
+        self.id_actions = UVMPool()
+        self.severity_id_actions = {}
+        self.sev_overrides = UVMPool()
+        self.sev_id_overrides = {}
+        self.id_file_handles = UVMPool()
+        self.severity_id_file_handles = {}
+
         self.set_default_file(0)
         self.m_max_verbosity_level = UVM_MEDIUM
         self.set_severity_action(UVM_INFO, UVM_DISPLAY)
diff --git a/src/uvm/base/uvm_report_server.py b/src/uvm/base/uvm_report_server.py
index e0fc451..214693e 100644
--- a/src/uvm/base/uvm_report_server.py
+++ b/src/uvm/base/uvm_report_server.py
@@ -344,12 +344,10 @@ class UVMReportServer(UVMObject):
         return self.m_message_db
 
     def get_severity_set(self, q: List[Any]) -> None:
-        while self.m_severity_count.has_next():
-            q.append(self.m_severity_count.next())
+        q.extend(self.m_severity_count.keys())
 
     def get_id_set(self, q: List[Any]) -> None:
-        while self.m_id_count.has_next():
-            q.append(self.m_id_count.next())
+        q.extend(self.m_id_count.keys())
 
     def f_display(self, file, _str) -> None:
         """
diff --git a/src/uvm/macros/uvm_message_defines.py b/src/uvm/macros/uvm_message_defines.py
index 6ea63b5..0ca24fc 100644
--- a/src/uvm/macros/uvm_message_defines.py
+++ b/src/uvm/macros/uvm_message_defines.py
@@ -99,6 +99,17 @@ if UVM_REPORT_DISABLE_LINE:
 #// terminated with semi-colons.
 
 
+def _report_enabled(f_locals, verbosity, severity, ID):
+    """
+    Checks the verbosity setting of the reporter that will issue the message:
+    `self` of the caller if that is one, otherwise the root.
+    """
+    reporter = f_locals.get('self')
+    if hasattr(reporter, 'uvm_report_enabled'):
+        return reporter.uvm_report_enabled(verbosity, severity, ID)
+    return uvm_report_enabled(verbosity, severity, ID)
+
+
 #//----------------------------------------------------------------------------
 #// Group:  Basic Messaging Macros
 #//----------------------------------------------------------------------------
@@ -113,11 +124,11 @@ if UVM_REPORT_DISABLE_LINE:
 #// |`uvm_info(ID, MSG, VERBOSITY)
 
 def uvm_info(ID, MSG, VERBOSITY):
-    if uvm_report_enabled(VERBOSITY, UVM_INFO, ID):
+    f_locals = inspect.currentframe().f_back.f_locals  # type: ignore
+    if _report_enabled(f_locals, VERBOSITY, UVM_INFO, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
-        f_locals = inspect.currentframe().f_back.f_locals  # type: ignore
         if 'self' in f_locals:
             parent_self = f_locals['self']
             if hasattr(parent_self, 'uvm_report_info'):
@@ -139,11 +150,11 @@ def uvm_info(ID, MSG, VERBOSITY):
 #// |`uvm_warning(ID, MSG)
 
 def uvm_warning(ID, MSG):
-    if uvm_report_enabled(UVM_NONE, UVM_WARNING,ID):
+    f_locals = inspect.currentframe().f_back.f_locals  # type: ignore
+    if _report_enabled(f_locals, UVM_NONE, UVM_WARNING, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
-        f_locals = inspect.currentframe().f_back.f_locals  # type: ignore
         if 'self' in f_locals:
             parent_self = f_locals['self']
             if hasattr(parent_self, 'uvm_report_warning'):
@@ -164,11 +175,11 @@ def uvm_warning(ID, MSG):
 #// |`uvm_error(ID, MSG)
 
 def uvm_error(ID, MSG):
-    if uvm_report_enabled(UVM_NONE, UVM_ERROR,ID):
+    f_locals = inspect.currentframe().f_back.f_locals  # type: ignore
+    if _report_enabled(f_locals, UVM_NONE, UVM_ERROR, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
-        f_locals = inspect.currentframe().f_back.f_locals  # type: ignore
         if 'self' in f_locals:
             parent_self = f_locals['self']
             if hasattr(parent_self, 'uvm_report_error'):
@@ -190,11 +201,11 @@ def uvm_error(ID, MSG):
 
 
 def uvm_fatal(ID, MSG):
-    if uvm_report_enabled(UVM_NONE, UVM_FATAL,ID):
+    f_locals = inspect.currentframe().f_back.f_locals  # type: ignore
+    if _report_enabled(f_locals, UVM_NONE, UVM_FATAL, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
-        f_locals = inspect.currentframe().f_back.f_locals  # type: ignore
         if 'self' in f_locals:
             parent_self = f_locals['self']
             if hasattr(parent_self, 'uvm_report_fatal'):
-- 
2.43.0


From f6bcec9d6b2c4013a90243e5f7922dc8df74361f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 038/131] fix: an exit request of the summary itself does not
 recurse

---
 src/uvm/base/uvm_root.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 6b253b3..744a856 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -104,6 +104,7 @@ class UVMRoot(UVMComponent):
     """
 
     raise_exception_on_die = True
+    m_dying = False
     m_relnotes_done = False
 
     @classmethod
@@ -350,10 +351,14 @@ class UVMRoot(UVMComponent):
         Raises:
             Exception:
         """
+        if self.m_dying:
+            return  # A message of pre_abort or of the summary asks to exit again
+        self.m_dying = True
         l_rs = get_report_server()
         # do the pre_abort callbacks
         self.m_do_pre_abort()
         l_rs.report_summarize()
+        self.m_dying = False
         if UVMRoot.raise_exception_on_die:
             raise UVMFinishError('die(): $finish from UVMRoot')
 
-- 
2.43.0


From 72dfd397a7b68671d9db9239c1dfd5e56d4084db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 039/131] fix: a field behind write-only map rights stays
 writable

---
 src/uvm/reg/uvm_reg_field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_field.py b/src/uvm/reg/uvm_reg_field.py
index 25c6931..fab2240 100644
--- a/src/uvm/reg/uvm_reg_field.py
+++ b/src/uvm/reg/uvm_reg_field.py
@@ -415,9 +415,10 @@ class UVMRegField(UVMObject):
                 field_access = "NOACCESS"
 
         elif rights == "WO":
-            field_access = "NOACCESS"
-            if field_access == 'RW' or field_access == 'WO':
+            if field_access in ["RW", "WO"]:
                 field_access = "WO"
+            else:
+                field_access = "NOACCESS"
         else:
             field_access = "NOACCESS"
             fname = ""
-- 
2.43.0


From c0455c5046e19418721ec9b6246768d1c9298af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 040/131] fix: predicting with a cleared byte enable leaves the
 field alone

---
 src/uvm/reg/uvm_reg_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_field.py b/src/uvm/reg/uvm_reg_field.py
index fab2240..0466b96 100644
--- a/src/uvm/reg/uvm_reg_field.py
+++ b/src/uvm/reg/uvm_reg_field.py
@@ -1266,7 +1266,7 @@ class UVMRegField(UVMObject):
 
         # Assume that the entire field is enabled
         if (0x00000001 & be) == 0:
-            raise Exception('DBG Early return field not enabled')
+            return
 
         self.m_fname = rw.fname
         self.m_lineno = rw.lineno
-- 
2.43.0


From c3990f273be3678f559cf8966cc3ce693d7cfccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 041/131] fix: write-only fields are not compared with a read
 value

---
 src/uvm/reg/uvm_reg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index f057f99..e738968 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1351,7 +1351,7 @@ class UVMReg(UVMObject):
 
         for i in range(len(self.m_fields)):
             acc = self.m_fields[i].get_access(_map)
-            acc = acc[0:1]
+            acc = acc[0:2]
             if (self.m_fields[i].get_compare() == UVM_NO_CHECK or
                     acc == "WO"):
                 lsb_pos = self.m_fields[i].get_lsb_pos()
@@ -1367,7 +1367,7 @@ class UVMReg(UVMObject):
         #foreach(self.m_fields[i]):
         for i in range(len(self.m_fields)):
             acc = self.m_fields[i].get_access(_map)
-            acc = acc[0:1]
+            acc = acc[0:2]
             if (not(self.m_fields[i].get_compare() == UVM_NO_CHECK or
                    acc == "WO")):
                 mask = ((1 << self.m_fields[i].get_n_bits())-1)
-- 
2.43.0


From 3f57e4ce9fd00d93244a70f56c38b452ef2e5124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 042/131] fix: check-on-read compares with the mirrored value

---
 src/uvm/reg/uvm_reg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index e738968..3dcee64 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1634,7 +1634,7 @@ class UVMReg(UVMObject):
             bkdr = self.get_backdoor()
             _map = UVMRegMap.backdoor()
             if _map.get_check_on_read():
-                exp = self.get()
+                exp = self.get_mirrored_value()
 
             if (bkdr is not None):
                 bkdr.read(rw)
@@ -1692,7 +1692,7 @@ class UVMReg(UVMObject):
             self.m_is_busy = True
 
             if (rw.local_map.get_check_on_read()):
-                exp = self.get()
+                exp = self.get_mirrored_value()
 
             map_info = arr_map_info[0]
             #  ...VIA USER FRONTDOOR
-- 
2.43.0


From 8610afc7201901b5ef52cc1b04f56d69ce99427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:43 +0000
Subject: [PATCH 043/131] fix: register callbacks run around writes and reads

---
 src/uvm/reg/uvm_reg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 3dcee64..c0b0c8c 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1442,6 +1442,7 @@ class UVMReg(UVMObject):
 
         # PRE-WRITE CBS - REG
         await self.pre_write(rw)
+        cbs = UVMRegCbIter(self)
         cb = cbs.first()
         while cb is not None:
             await cb.pre_write(rw)
@@ -1519,6 +1520,7 @@ class UVMReg(UVMObject):
         value = rw.value[0]
 
         # POST-WRITE CBS - REG
+        cbs = UVMRegCbIter(self)
         cb = cbs.first()
         while cb is not None:
             await cb.post_write(rw)
@@ -1535,7 +1537,7 @@ class UVMReg(UVMObject):
 
             cb = cbs.first()
             while cb is not None:
-                cb.post_write(rw)
+                await cb.post_write(rw)
                 cb = cbs.next()
             await f.post_write(rw)
 
@@ -1620,7 +1622,7 @@ class UVMReg(UVMObject):
         await self.pre_read(rw)
         cb = cbs.first()
         while cb is not None:
-            cb.pre_read(rw)
+            await cb.pre_read(rw)
             cb = cbs.next()
 
         if rw.status != UVM_IS_OK:
-- 
2.43.0


From 5a75c4dba98a3b4337f384a17d139c8c24d0f1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 044/131] fix: read callbacks of registers and memories are
 awaited alike

---
 src/uvm/reg/uvm_mem.py     | 2 +-
 src/uvm/reg/uvm_reg.py     | 4 ++--
 src/uvm/reg/uvm_reg_cbs.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index b790fdb..4ef6b65 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -1086,7 +1086,7 @@ class UVMMem(UVMObject):
         await self.pre_read(rw)
         cb = cbs.first()
         while cb is not None:
-            cb.pre_read(rw)
+            await cb.pre_read(rw)
             cb = cbs.next()
 
         if rw.status != UVM_IS_OK:
diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index c0b0c8c..45a277d 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1729,7 +1729,7 @@ class UVMReg(UVMObject):
         # POST-READ CBS - REG
         cb = cbs.first()
         while (cb is not None):
-            cb.post_read(rw)
+            await cb.post_read(rw)
             cb = cbs.next()
         await self.post_read(rw)
 
@@ -1743,7 +1743,7 @@ class UVMReg(UVMObject):
 
             cb = cbs.first()
             while (cb is not None):
-                cb.post_read(rw)
+                await cb.post_read(rw)
                 cb = cbs.next()
             await f.post_read(rw)
 
diff --git a/src/uvm/reg/uvm_reg_cbs.py b/src/uvm/reg/uvm_reg_cbs.py
index ac7f76d..9ba8895 100644
--- a/src/uvm/reg/uvm_reg_cbs.py
+++ b/src/uvm/reg/uvm_reg_cbs.py
@@ -193,7 +193,7 @@ class UVMRegCbs(UVMCallback):
         await uvm_zero_delay()
 
 
-    def post_read(self, rw):
+    async def post_read(self, rw):
         """
            Task: post_read
 
-- 
2.43.0


From 13565db1f13199c8a474e97240566278e32daaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 045/131] fix: update reports a status for every register and
 sub-block

---
 src/uvm/reg/uvm_reg.py       | 3 ++-
 src/uvm/reg/uvm_reg_block.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 45a277d..0ed3a17 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1052,6 +1052,7 @@ class UVMReg(UVMObject):
         # status = UVM_IS_OK
 
         if self.needs_update() is False:
+            status.append(UVM_IS_OK)
             return
 
         # Concatenate the write-to-update values from each field
@@ -1136,7 +1137,7 @@ class UVMReg(UVMObject):
         await self.XreadX(status, v, path, _map, parent, prior, extension, fname, lineno)
         v = v[0]
 
-        if status == UVM_NOT_OK:
+        if status[0] == UVM_NOT_OK:
             await self.XatomicX(0)
             return
 
diff --git a/src/uvm/reg/uvm_reg_block.py b/src/uvm/reg/uvm_reg_block.py
index aceea7a..a642b4e 100644
--- a/src/uvm/reg/uvm_reg_block.py
+++ b/src/uvm/reg/uvm_reg_block.py
@@ -952,6 +952,7 @@ class UVMRegBlock(UVMObject):
         if self.needs_update() is False:
             uvm_info("RegModel", sv.sformatf("%s:%0d - RegModel block %s does not need updating",
                          fname, lineno, self.get_name()), UVM_HIGH)
+            status.append(stat_all)
             return
 
 
@@ -972,9 +973,9 @@ class UVMRegBlock(UVMObject):
         for blk_ in self.blks.key_list():
             blk = blk_
             stat_blk = []
-            await blk.update(status,path,parent,prior,extension,fname,lineno)
+            await blk.update(stat_blk,path,parent,prior,extension,fname,lineno)
             if (stat_blk[0] != UVM_IS_OK and stat_blk[0] != UVM_HAS_X):
-                stat_all = stat_blk
+                stat_all = stat_blk[0]
         status.append(stat_all)
 
 
-- 
2.43.0


From 63a2960c500a079cb18cdbfa3316aff556b265d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 046/131] fix: write_reg_by_name returns the status of the
 write

---
 src/uvm/reg/uvm_reg_block.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_block.py b/src/uvm/reg/uvm_reg_block.py
index a642b4e..010c2de 100644
--- a/src/uvm/reg/uvm_reg_block.py
+++ b/src/uvm/reg/uvm_reg_block.py
@@ -1045,10 +1045,12 @@ class UVMRegBlock(UVMObject):
         self.fname = fname
         self.lineno = lineno
 
-        status = UVM_NOT_OK
+        uvm_check_output_args([status])
         rg = self.get_reg_by_name(name)
         if rg is not None:
             await rg.write(status, data, path, map, parent, prior, extension)
+        else:
+            status.append(UVM_NOT_OK)
 
 
     #   // Task: read_reg_by_name
-- 
2.43.0


From 3928e0d30a435d1993751d668367bba6fb0ff121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 047/131] fix: an aborted register access releases the register
 exactly once

---
 src/uvm/reg/uvm_reg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 0ed3a17..9c26048 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1127,6 +1127,8 @@ class UVMReg(UVMObject):
             _map = self.get_local_map(_map, "read()")
 
         if _map is None:
+            status.append(UVM_NOT_OK)
+            await self.XatomicX(0)
             return
 
         # Remember what we think the value is before it gets updated
@@ -1451,7 +1453,6 @@ class UVMReg(UVMObject):
 
         if rw.status != UVM_IS_OK:
             self.m_write_in_progress = False
-            await self.XatomicX(0)
             return
 
         if rw.path == UVM_BACKDOOR:
-- 
2.43.0


From dd1267960305a8aa20b027b98e0e300e2c701d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 048/131] fix: user backdoor accesses of registers are awaited

---
 src/uvm/reg/uvm_reg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 9c26048..c1ac667 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1463,7 +1463,7 @@ class UVMReg(UVMObject):
             # Mimick the final value after a physical read
             rw.kind = UVM_READ
             if bkdr is not None:
-                bkdr.read(rw)
+                await bkdr.read(rw)
             else:
                 self.backdoor_read(rw)
 
@@ -1483,7 +1483,7 @@ class UVMReg(UVMObject):
             rw.value[0] = final_val
 
             if bkdr is not None:
-                bkdr.write(rw)
+                await bkdr.write(rw)
             else:
                 self.backdoor_write(rw)
 
@@ -1641,7 +1641,7 @@ class UVMReg(UVMObject):
                 exp = self.get_mirrored_value()
 
             if (bkdr is not None):
-                bkdr.read(rw)
+                await bkdr.read(rw)
             else:
                 self.backdoor_read(rw)
             value = rw.value[0]
@@ -1677,7 +1677,7 @@ class UVMReg(UVMObject):
                     saved = rw.value[0]
                     rw.value[0] = value
                     if bkdr is not None:
-                        bkdr.write(rw)
+                        await bkdr.write(rw)
                     else:
                         self.backdoor_write(rw)
                     rw.value[0] = saved
-- 
2.43.0


From cdeee240b11fd132c6154bd6b643c887d07a79ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 049/131] fix: wide registers below several map levels get each
 address once

---
 src/uvm/reg/uvm_reg_map.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 970ef19..537d409 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -1170,6 +1170,7 @@ class UVMRegMap(UVMObject):
             base_addr = up_map.get_submap_offset(self)
             for i in range(len(local_addr)):
                 n = len(addr)
+                sys_addr = []
                 w = up_map.get_physical_addresses(base_addr + local_addr[i] * k,
                         0, bus_width, sys_addr)
 
-- 
2.43.0


From ed8c578c7bd7f2d6680ac7bdeb58143f1c8de062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 050/131] fix: the parent sequence made for a register write
 leaves the sequencer

---
 src/uvm/reg/uvm_reg_map.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 537d409..aa8e690 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -1649,11 +1649,8 @@ class UVMRegMap(UVMObject):
             uvm_debug(self, 'do_write', 'do_bus_write because adapter exists')
             await self.do_bus_write(rw, sequencer, adapter)
 
-        # TODO
-        #  if (tmp_parent_seq is not None)
-        #    sequencer.m_sequence_exiting(tmp_parent_seq)
-        #
-        #endtask
+        if tmp_parent_seq is not None:
+            sequencer.m_sequence_exiting(tmp_parent_seq)
 
 
     async def do_read(self, rw: UVMRegItem) -> None:
-- 
2.43.0


From 34ed0c00d56b0b453a16e53abc40d5d749f73b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 051/131] fix: adapters that provide responses can be used

---
 src/uvm/reg/uvm_reg_map.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index aa8e690..87c6762 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -1430,12 +1430,12 @@ class UVMRegMap(UVMObject):
                 await bus_req.end_event.wait_on()
 
                 if adapter.provides_responses:
-                    bus_rsp = None  # uvm_sequence_item
+                    bus_rsp = []  # uvm_sequence_item
                     op = None  # uvm_access_e
                     # TODO: need to test for right trans type, if not put back in q
                     await rw.parent.get_base_response(bus_rsp)
-                    #rw_access = adapter.bus2reg(bus_rsp, rw_access)
-                    adapter.bus2reg(bus_rsp, rw_access)
+                    #rw_access = adapter.bus2reg(bus_rsp[0], rw_access)
+                    adapter.bus2reg(bus_rsp[0], rw_access)
                 else:
                     #rw_access = adapter.bus2reg(bus_req, rw_access)
                     adapter.bus2reg(bus_req, rw_access)
@@ -1579,11 +1579,11 @@ class UVMRegMap(UVMObject):
                 await bus_req.end_event.wait_on()
 
                 if adapter.provides_responses:
-                    bus_rsp = None  # uvm_sequence_item
+                    bus_rsp = []  # uvm_sequence_item
                     op = 0  # uvm_access_e
                     # TODO: need to test for right trans type, if not put back in q
                     await rw.parent.get_base_response(bus_rsp)
-                    adapter.bus2reg(bus_rsp, rw_access)
+                    adapter.bus2reg(bus_rsp[0], rw_access)
                 else:
                     adapter.bus2reg(bus_req,rw_access)
 
-- 
2.43.0


From a58af55ca6eeb7de341ad3d6285d69056e356047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 052/131] fix: a memory of one word can be mapped

---
 src/uvm/reg/uvm_reg_map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 87c6762..7192d46 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -189,7 +189,8 @@ class UVMRegMap(UVMObject):
                     max1 = addrs_max[len(addrs_max)-1]
                 max2 = addrs_max[0]
                 # address interval between consecutive mem offsets
-                stride = int((max2 - min2)/(mem.get_size() - 1))
+                if mem.get_size() > 1:
+                    stride = (max2 - min2) // (mem.get_size() - 1)
 
                 for reg_addr in top_map.m_regs_by_offset:
                     if (reg_addr >= min1 and reg_addr <= max1):
-- 
2.43.0


From 3c3431e81361b28d26b05144993388c1bef1ef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 053/131] fix: overlapping memory mappings are reported

---
 src/uvm/reg/uvm_reg_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 7192d46..5b3e461 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -152,7 +152,7 @@ class UVMRegMap(UVMObject):
                         if (addr >= rr.min and addr <= rr.max):
                             a = sv.sformatf("%0h",addr)
                             b = sv.sformatf("[%0h:%0h]", rr.min, rr.max)
-                            uvm_warning("RegModel", ("In map '",
+                            uvm_warning("RegModel", ("In map '" +
                                     self.get_full_name() + "' register '" +
                                 rg.get_full_name() + "' with address " + a +
                                 "maps to same address as memory '" +
@@ -205,7 +205,7 @@ class UVMRegMap(UVMObject):
                     if (min1 <= rr.max and max1 >= rr.max or
                             min1 <= rr.min and max1 >= rr.min or
                             min1 >= rr.min and max1 <= rr.max):
-                        a = sv.sformatf("[%0h:%0h]",min,max)
+                        a = sv.sformatf("[%0h:%0h]",min1,max1)
                         uvm_warning("RegModel", ("In map '" + self.get_full_name()
                             + "' memory '" + mem.get_full_name() + "' overlaps with address range of memory '"
                             + top_map.m_mems_by_offset[rr].get_full_name()
-- 
2.43.0


From 6bf34603e5159b65f29adb3b048f8f593f25536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 054/131] fix: moving a register removes it from its old
 address

---
 src/uvm/reg/uvm_reg_map.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 5b3e461..08b0dba 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -670,10 +670,11 @@ class UVMRegMap(UVMObject):
         if blk.is_locked():
 
             # remove any existing cached addresses
-            if info.unmapped is False:
+            if not info.unmapped:
                 for addr in info.addr:
                     if addr not in top_map.m_regs_by_offset_wo:
-                        del top_map.m_regs_by_offset[addr]
+                        if top_map.m_regs_by_offset.get(addr) is rg:
+                            del top_map.m_regs_by_offset[addr]
                     else:
                         if top_map.m_regs_by_offset[addr] == rg:
                             top_map.m_regs_by_offset[addr] = top_map.m_regs_by_offset_wo[addr]
@@ -731,7 +732,7 @@ class UVMRegMap(UVMObject):
 
                 info.addr = addrs # cache it
 
-        if unmapped is True:
+        if unmapped:
             info.offset   = -1
             info.unmapped = 1
         else:
-- 
2.43.0


From 1a4727b8e4df7b2af71d96902bbe641e88e8c022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 055/131] fix: map configuration errors are reported instead of
 raising

---
 src/uvm/reg/uvm_reg_map.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 08b0dba..fd6cd53 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -489,8 +489,8 @@ class UVMRegMap(UVMObject):
         if child_blk is None:
             uvm_error("RegModel", ("Submap '" + child_map.get_full_name()
                 + "' may not be added to this address map, '"
-                + self.get_full_name(),"', as the submap's parent block, '"
-                + child_blk.get_full_name()
+                + self.get_full_name() + "', as the submap's parent block, '"
+                + child_map.get_parent().get_full_name()
                 + "', is neither this map's parent block nor a descendent of this map's parent block, '"
                 + self.m_parent.get_full_name() + "'"))
             return
@@ -1144,7 +1144,7 @@ class UVMRegMap(UVMObject):
                     local_addr[i] = base_addr
             else:
                 uvm_error("RegModel",
-                        ("Map has no specified endianness. ",
+                        ("Map has no specified endianness. " +
                         sv.sformatf("Cannot access %0d bytes register via its %0d byte %s interface",
                         n_bytes, bus_width, self.get_full_name())))
 
-- 
2.43.0


From a9d7e3d00d4ca4b25a242cd068b8856fa4e589ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 056/131] fix: out-of-range memory accesses are rejected

---
 src/uvm/reg/uvm_mem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 4ef6b65..bb8e339 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -956,6 +956,7 @@ class UVMMem(UVMObject):
                         uvm_error("RegModel",
                            sv.sformatf("Burst of size 'd%0d starting at offset 'd%0d exceeds size of memory, 'd%0d",
                                len(rw.value), rw.offset, self.m_size))
+                        rw.status = UVM_NOT_OK
                         return 0
 
             if rw.map is None:
@@ -972,7 +973,7 @@ class UVMMem(UVMObject):
         self.m_fname  = rw.fname
         self.m_lineno = rw.lineno
 
-        if self.Xcheck_accessX(rw, arr_map_info, "burst_write()") is False:
+        if not self.Xcheck_accessX(rw, arr_map_info, "burst_write()"):
             await uvm_zero_delay()
             return
 
@@ -1075,7 +1076,7 @@ class UVMMem(UVMObject):
         self.m_fname = rw.fname
         self.m_lineno = rw.lineno
 
-        if self.Xcheck_accessX(rw, arr_map_info, "burst_read()") is False:
+        if not self.Xcheck_accessX(rw, arr_map_info, "burst_read()"):
             await uvm_zero_delay()
             return
 
-- 
2.43.0


From f9d2ff8ffc6072576823e9b55c7c4b08a8bd70b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 057/131] fix: access of a shared memory takes the map rights
 into account

---
 src/uvm/reg/uvm_mem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index bb8e339..5307371 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -433,6 +433,7 @@ class UVMMem(UVMObject):
         else:
             uvm_error("RegModel", "Shared memory '" + self.get_full_name()
                 + "' is not shared in map '" + _map.get_full_name() + "'")
+        return get_access
 
     #   // Function: get_size
     #   //
-- 
2.43.0


From d15e478144c1bd2bfaa739bc6198c700e85f9725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 058/131] fix: a memory burst read fills the given array

---
 src/uvm/reg/uvm_mem.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 5307371..499723f 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -760,7 +760,7 @@ class UVMMem(UVMObject):
     async def burst_read(self, status, offset,
     value, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname="",
             lineno=0):
-        uvm_check_output_args([status, value])
+        uvm_check_output_args([status])
         rw = UVMRegItem.type_id.create("mem_burst_read", None, self.get_full_name())
         rw.element      = self
         rw.element_kind = UVM_MEM
@@ -777,8 +777,7 @@ class UVMMem(UVMObject):
 
         await self.do_read(rw)
         status.append(rw.status)
-        for val in rw.value:
-            value.append(val)
+        value[:] = rw.value
 
 
     #   // Task: poke
-- 
2.43.0


From aa2fbfe409645949f7caae35e4774e0f90421f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 059/131] fix: a map whose registers are mapped late knows its
 bus width

---
 src/uvm/reg/uvm_reg_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index fd6cd53..c322b44 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -690,7 +690,7 @@ class UVMRegMap(UVMObject):
             if not unmapped:
                 rg_acc = rg.Xget_fields_accessX(self)
                 # get new addresses
-                self.get_physical_addresses(offset,0,rg.get_n_bytes(),addrs)
+                self.m_system_n_bytes = self.get_physical_addresses(offset, 0, rg.get_n_bytes(), addrs)
 
                 # make sure they do not conflict with others
                 for adr in addrs:
-- 
2.43.0


From 317961d886ad97c6d7e2555765b2724a708f8997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 060/131] fix: moving a register leaves other registers' shared
 address alone

---
 src/uvm/reg/uvm_reg_map.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index c322b44..49efa27 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -680,11 +680,11 @@ class UVMRegMap(UVMObject):
                             top_map.m_regs_by_offset[addr] = top_map.m_regs_by_offset_wo[addr]
                             #TODO UVMRegReadOnlyCbs.remove(rg)
                             #TODO UVMRegWriteOnlyCbs.remove(top_map.m_regs_by_offset[info.addr[i]])
-                        else:
-                            pass
+                            del top_map.m_regs_by_offset_wo[addr]
+                        elif top_map.m_regs_by_offset_wo[addr] == rg:
                             #TODO UVMRegWriteOnlyCbs.remove(rg)
                             #TODO UVMRegReadOnlyCbs.remove(top_map.m_regs_by_offset[info.addr[i]])
-                        del top_map.m_regs_by_offset_wo[addr]
+                            del top_map.m_regs_by_offset_wo[addr]
 
             # if we are remapping...
             if not unmapped:
-- 
2.43.0


From 6a033a488b690cf7cd6356fb6b91f0eea9abbf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 061/131] fix: accesses to unmapped registers and memories are
 rejected, not raised

---
 src/uvm/reg/uvm_mem.py | 10 ++++++++--
 src/uvm/reg/uvm_reg.py |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 499723f..9014766 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -926,9 +926,12 @@ class UVMMem(UVMObject):
             rw.local_map = self.get_local_map(rw.map,caller)
 
             if rw.local_map is None:
+                name = ""
+                if rw.map is not None:
+                    name = rw.map.get_full_name()
                 uvm_error(self.get_type_name(),
                     "No transactor available to physically access memory from map '"
-                    + rw.map.get_full_name() + "'")
+                    + name + "'")
                 rw.status = UVM_NOT_OK
                 return 0
 
@@ -938,8 +941,11 @@ class UVMMem(UVMObject):
             if _map_info_data.frontdoor is None:
 
                 if (_map_info_data.unmapped):
+                    name = rw.local_map.get_full_name()
+                    if rw.map is not None:
+                        name = rw.map.get_full_name()
                     uvm_error("RegModel", "Memory '" + self.get_full_name()
-                              + "' unmapped in map '" + rw.map.get_full_name()
+                              + "' unmapped in map '" + name
                               + "' and does not have a user-defined frontdoor")
                     rw.status = UVM_NOT_OK
                     return 0
diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index c1ac667..f912331 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1309,9 +1309,12 @@ class UVMReg(UVMObject):
             rw.local_map = self.get_local_map(rw.map,caller)
 
             if rw.local_map is None:
+                name = ""
+                if rw.map is not None:
+                    name = rw.map.get_full_name()
                 uvm_error(self.get_type_name(),
                    "No transactor available to physically access register on map '" +
-                    rw.map.get_full_name() + "'")
+                    name + "'")
                 rw.status = UVM_NOT_OK
                 return False
 
-- 
2.43.0


From 9b47d756016433bbc60b2b4d1594d2e8ffbfd492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 062/131] fix: iterating over a UVMPool visits its keys

'for x in pool' visited nothing, so a memory was not found through a parent map and
an indirect register configured after being mapped got no frontdoors.
---
 src/uvm/base/uvm_pool.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index 23503ca..71a20f9 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -193,6 +193,13 @@ class UVMPool(UVMObject, Generic[KEY, VAL]):
         """
         return key in self.pool
 
+    def __iter__(self):
+        """
+        Iterates over the keys, like a SystemVerilog foreach
+        Returns:
+        """
+        return iter(self.key_list())
+
     def __setitem__(self, key, value):
         """
         Implements aa[x] = y
-- 
2.43.0


From 5352e5a873ef092075b32a97b59b12df1d3123d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 063/131] fix: register callback iterators visit register
 callbacks only

---
 src/uvm/reg/uvm_reg_backdoor.py | 4 ++--
 src/uvm/reg/uvm_reg_cbs.py      | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_backdoor.py b/src/uvm/reg/uvm_reg_backdoor.py
index 0b1545e..c27a5b0 100644
--- a/src/uvm/reg/uvm_reg_backdoor.py
+++ b/src/uvm/reg/uvm_reg_backdoor.py
@@ -88,7 +88,7 @@ class UVMRegBackdoor(UVMObject):
         Args:
             rw: 
         """
-        iter = UVMCallbackIter(self)
+        iter = UVMCallbackIter(self, UVMRegCbs)
         # for(uvm_reg_cbs cb = iter.last(); cb is not None; cb=iter.prev())
         #     cb.decode(rw.value)
         cb = iter.first()
@@ -112,7 +112,7 @@ class UVMRegBackdoor(UVMObject):
             rw: 
         """
         #uvm_callback_iter#(UVMRegBackdoor, uvm_reg_cbs) iter = new(self)
-        iter = UVMCallbackIter(self)
+        iter = UVMCallbackIter(self, UVMRegCbs)
         await self.pre_write(rw)
         uvm_do_obj_callbacks(self, UVMRegCbs,'pre_write',self,rw)
         #      for(uvm_reg_cbs cb = iter.first(); cb is not None; cb = iter.next())
diff --git a/src/uvm/reg/uvm_reg_cbs.py b/src/uvm/reg/uvm_reg_cbs.py
index 9ba8895..f166771 100644
--- a/src/uvm/reg/uvm_reg_cbs.py
+++ b/src/uvm/reg/uvm_reg_cbs.py
@@ -320,7 +320,9 @@ UVMRegCb = UVMCallbacks
 #// rather than the more verbose parameterized class
 #//
 #typedef uvm_callback_iter#(uvm_reg, uvm_reg_cbs) uvm_reg_cb_iter
-UVMRegCbIter = UVMCallbackIter
+class UVMRegCbIter(UVMCallbackIter):
+    def __init__(self, obj, CB=None):
+        super().__init__(obj, UVMRegCbs if CB is None else CB)
 
 
 
@@ -361,7 +363,7 @@ UVMRegCbIter = UVMCallbackIter
 #// rather than the more verbose parameterized class
 #//
 #typedef uvm_callback_iter#(uvm_mem, uvm_reg_cbs) uvm_mem_cb_iter
-UVMMemCbIter = UVMCallbackIter
+UVMMemCbIter = UVMRegCbIter
 
 #
 #// Type: uvm_reg_field_cb
@@ -383,7 +385,7 @@ UVMRegFieldCb = UVMCallbacks
 #// rather than the more verbose parameterized class
 #//
 #typedef uvm_callback_iter#(uvm_reg_field, uvm_reg_cbs) uvm_reg_field_cb_iter
-UVMRegFieldCbIter = UVMCallbackIter
+UVMRegFieldCbIter = UVMRegCbIter
 
 
 #//-----------------------------
-- 
2.43.0


From 8ecca1b56f51b15b5cbd6963d8150d36fa04a4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:16 +0000
Subject: [PATCH 064/131] fix: FIFO registers can be written, read when empty
 and updated when nothing is set

---
 src/uvm/reg/uvm_reg_fifo.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_fifo.py b/src/uvm/reg/uvm_reg_fifo.py
index 332bf06..4eb4e46 100644
--- a/src/uvm/reg/uvm_reg_fifo.py
+++ b/src/uvm/reg/uvm_reg_fifo.py
@@ -23,8 +23,10 @@
 import cocotb
 from .uvm_reg import UVMReg
 from .uvm_reg_field import UVMRegField
-from .uvm_reg_model import (UVM_CHECK, UVM_DEFAULT_PATH, UVM_NOT_OK,
+from .uvm_reg_item import UVMRegItem
+from .uvm_reg_model import (UVM_CHECK, UVM_DEFAULT_PATH, UVM_IS_OK, UVM_NOT_OK, UVM_REG, UVM_WRITE,
     UVM_PREDICT_WRITE, UVM_PREDICT_DIRECT, UVM_PREDICT_READ)
+from ..base.uvm_globals import uvm_check_output_args
 from ..macros import uvm_warning, uvm_error
 from ..base.sv import sv
 
@@ -132,6 +134,30 @@ class UVMRegFIFO(UVMReg):
     #    //  either prediction mode.
 
 
+    async def write(self, status, value, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1,
+                    extension=None, fname="", lineno=0):
+        # As UVMReg.write, except that the value is not preloaded with set()
+        uvm_check_output_args([status])
+        rw = UVMRegItem.type_id.create("write_item", None, self.get_full_name())
+        await self.XatomicX(1, rw)
+        rw.element      = self
+        rw.element_kind = UVM_REG
+        rw.kind         = UVM_WRITE
+        rw.value[0]     = value
+        rw.path         = path
+        rw.map          = _map
+        rw.parent       = parent
+        rw.prior        = prior
+        rw.extension    = extension
+        rw.fname        = fname
+        rw.lineno       = lineno
+
+        await self.do_write(rw)
+        status.append(rw.status)
+        await self.XatomicX(0)
+        return rw.status
+
+
     #    //  Function: read
     #    //
     #    //  Reads the next value out of the DUT FIFO. If auto-prediction is
@@ -166,6 +192,8 @@ class UVMRegFIFO(UVMReg):
             prior=-1, extension=None, fname="", lineno=0):
         upd = 0x0
         if self.m_set_cnt == 0 or len(self.fifo) == 0:
+            self.m_set_cnt = 0
+            status.append(UVM_IS_OK)
             return
         self.m_update_in_progress = 1
         i = len(self.fifo)-self.m_set_cnt
@@ -196,6 +224,8 @@ class UVMRegFIFO(UVMReg):
     #    //
     def get(self, fname="", lineno=0):
         #return fifo.pop(0)();
+        if len(self.fifo) == 0:
+            return 0
         val = self.fifo[0]
         return val
 
-- 
2.43.0


From 249d1d998a12e2f29a1d9b19eb1d6e6f5c8f2250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 065/131] fix: accesses to indirect data registers can be
 predicted

---
 src/uvm/reg/uvm_reg_indirect.py  | 6 ++++++
 src/uvm/reg/uvm_reg_predictor.py | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/uvm/reg/uvm_reg_indirect.py b/src/uvm/reg/uvm_reg_indirect.py
index b40803c..21c3234 100644
--- a/src/uvm/reg/uvm_reg_indirect.py
+++ b/src/uvm/reg/uvm_reg_indirect.py
@@ -211,6 +211,12 @@ class UVMRegIndirectData(UVMReg):
     #      return(m_tbl[idx])
     #   endfunction
 
+    def get_indirect_reg(self, fname="", lineno=0):
+        idx = self.m_idx.get_mirrored_value()
+        if idx >= len(self.m_tbl):
+            return None
+        return self.m_tbl[idx]
+
     def needs_update(self):
         return 0
 
diff --git a/src/uvm/reg/uvm_reg_predictor.py b/src/uvm/reg/uvm_reg_predictor.py
index 293d03f..180e95e 100644
--- a/src/uvm/reg/uvm_reg_predictor.py
+++ b/src/uvm/reg/uvm_reg_predictor.py
@@ -193,6 +193,8 @@ class UVMRegPredictor(UVMComponent):
             if sv.cast(ireg, rg, UVMRegIndirectData):
                 ireg = ireg[0]
                 ir = ireg.get_indirect_reg()
+                if ir is None:  # index out of range, reported by do_predict()
+                    ir = rg
 
             for i in range(len(map_info.addr)):
                 if rw.addr == map_info.addr[i]:
-- 
2.43.0


From 5976b98b098a9e12941effb7b58f3184411f1b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 066/131] fix: register callbacks without a post_predict hook
 do not stop predictions

---
 src/uvm/reg/uvm_reg_cbs.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_cbs.py b/src/uvm/reg/uvm_reg_cbs.py
index f166771..71e0406 100644
--- a/src/uvm/reg/uvm_reg_cbs.py
+++ b/src/uvm/reg/uvm_reg_cbs.py
@@ -237,22 +237,24 @@ class UVMRegCbs(UVMCallback):
         pass
 
 
-    #   // Task: post_predict
-    #   //
-    #   // Called by the <uvm_reg_field::predict()> method
-    #   // after a successful UVM_PREDICT_READ or UVM_PREDICT_WRITE prediction.
-    #   //
-    #   // ~previous~ is the previous value in the mirror and
-    #   // ~value~ is the latest predicted value. Any change to ~value~ will
-    #   // modify the predicted mirror value.
-    #   //
-    #   virtual function void post_predict(input uvm_reg_field  fld,
-    #                                      input uvm_reg_data_t previous,
-    #                                      inout uvm_reg_data_t value,
-    #                                      input uvm_predict_e  kind,
-    #                                      input uvm_path_e     path,
-    #                                      input uvm_reg_map    map)
-    #   endfunction
+    def post_predict(self, fld, previous, value, kind, path, map):
+        """
+           Function: post_predict
+
+           Called by the `UVMRegField.predict` method
+           after a successful UVM_PREDICT_READ or UVM_PREDICT_WRITE prediction.
+
+           `previous` is the previous value in the mirror and
+           `value` is the latest predicted value.
+        Args:
+            fld:
+            previous:
+            value:
+            kind:
+            path:
+            map:
+        """
+        pass
 
 
     def encode(self, data):
-- 
2.43.0


From 162e1ac62fa6f5e1cf1fa8f059cca7128b93a7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 067/131] fix: copying a register item does not share its list
 of values

---
 src/uvm/reg/uvm_reg_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_item.py b/src/uvm/reg/uvm_reg_item.py
index 7799aea..06065b4 100644
--- a/src/uvm/reg/uvm_reg_item.py
+++ b/src/uvm/reg/uvm_reg_item.py
@@ -215,7 +215,7 @@ class UVMRegItem(UVMSequenceItem):
         self.element_kind = rhs_.element_kind
         self.element = rhs_.element
         self.kind = rhs_.kind
-        self.value = rhs_.value
+        self.value = rhs_.value.copy()
         self.offset = rhs_.offset
         self.status = rhs_.status
         self.local_map = rhs_.local_map
-- 
2.43.0


From d1cb5791e07cb5a964413a23cbdfe7ce760366fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 068/131] fix: an object can be copied again after a copy which
 copied nested objects

---
 src/uvm/base/uvm_object.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/uvm/base/uvm_object.py b/src/uvm/base/uvm_object.py
index 46170f5..2ccbb0f 100644
--- a/src/uvm/base/uvm_object.py
+++ b/src/uvm/base/uvm_object.py
@@ -520,7 +520,6 @@ class UVMObject(sv_obj):
             rhs (UVMObject): An object to be copied.
         """
         # For cycle checking
-        UVMObject.depth = 0
         if (rhs is not None) and rhs in UVMObject.uvm_global_copy_map:
             return
 
@@ -531,12 +530,13 @@ class UVMObject(sv_obj):
 
         UVMObject.uvm_global_copy_map[rhs] = self
         UVMObject.depth += 1
-        self._m_uvm_field_automation(rhs, UVM_COPY, "")
-        self.do_copy(rhs)
-
-        UVMObject.depth -= 1
-        if UVMObject.depth == 0:
-            UVMObject.uvm_global_copy_map = {}
+        try:
+            self._m_uvm_field_automation(rhs, UVM_COPY, "")
+            self.do_copy(rhs)
+        finally:
+            UVMObject.depth -= 1
+            if UVMObject.depth == 0:
+                UVMObject.uvm_global_copy_map = {}
 
     def do_copy(self, rhs) -> None:
         """
-- 
2.43.0


From 52a9ddc8c425d96e85d0a1ba2e9c461626e1fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 069/131] fix: parts of registers behind narrower submaps are
 assembled at the submap width

---
 src/uvm/reg/uvm_reg_predictor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_predictor.py b/src/uvm/reg/uvm_reg_predictor.py
index 180e95e..aa8ec6c 100644
--- a/src/uvm/reg/uvm_reg_predictor.py
+++ b/src/uvm/reg/uvm_reg_predictor.py
@@ -199,7 +199,7 @@ class UVMRegPredictor(UVMComponent):
             for i in range(len(map_info.addr)):
                 if rw.addr == map_info.addr[i]:
                     found = True
-                    reg_item.value[0] |= rw.data << (i * self.map.get_n_bytes()*8)
+                    reg_item.value[0] |= rw.data << (i * local_map.get_n_bytes()*8)
                     predict_info.addr[rw.addr] = 1
 
                     if len(predict_info.addr) == len(map_info.addr):
-- 
2.43.0


From 9eba59ac9d5bb5d52455cc6db7f6d19af3876886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 070/131] fix: blocking transport ports do not connect to
 nonblocking put interfaces

---
 src/uvm/macros/uvm_tlm_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_tlm_defines.py b/src/uvm/macros/uvm_tlm_defines.py
index 8a3c122..ed7b628 100644
--- a/src/uvm/macros/uvm_tlm_defines.py
+++ b/src/uvm/macros/uvm_tlm_defines.py
@@ -628,7 +628,7 @@ def UVM_SEQ_ITEM_PULL_IMP(T, imp):
 UVM_TLM_BLOCKING_PUT_MASK = (1 << 0)
 UVM_TLM_BLOCKING_GET_MASK = (1 << 1)
 UVM_TLM_BLOCKING_PEEK_MASK = (1 << 2)
-UVM_TLM_BLOCKING_TRANSPORT_MASK = (2 << 3)
+UVM_TLM_BLOCKING_TRANSPORT_MASK = (1 << 3)
 #
 UVM_TLM_NONBLOCKING_PUT_MASK = (1 << 4)
 UVM_TLM_NONBLOCKING_GET_MASK = (1 << 5)
-- 
2.43.0


From 9ea87267733ef4299a3392671e306cf78cb78b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 071/131] fix: fields registered for a derived class are not
 added to its base class

---
 src/uvm/macros/uvm_object_defines.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 03656bb..3f32dbd 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -121,9 +121,10 @@ def uvm_object_utils_end(T):
 
 def uvm_field_utils_start(T):
     # Create static member containers for var names and masks
-    if not hasattr(T, "_m_uvm_field_names"):
+    # Each class has its own list, fields of base classes are visited via Base
+    if "_m_uvm_field_names" not in T.__dict__:
         setattr(T, "_m_uvm_field_names", [])
-    if not hasattr(T, "_m_uvm_field_masks"):
+    if "_m_uvm_field_masks" not in T.__dict__:
         setattr(T, "_m_uvm_field_masks", {})
 
     def _m_uvm_field_automation(self, rhs, what__, str__):
-- 
2.43.0


From b6c67908acac40e3acaeed69915fba58cc5f8a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 072/131] fix: objects of different types can be compared and
 copied

---
 src/uvm/macros/uvm_object_defines.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 3f32dbd..9d2e608 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -140,6 +140,10 @@ def uvm_field_utils_start(T):
         T_cont = T._m_uvm_status_container
         T_cont_obj = UVMObject._m_uvm_status_container
 
+        # Only fields which both objects have are copied and compared
+        if what__ in [UVM_COPY, UVM_COMPARE] and not isinstance(rhs, T):
+            return
+
         if what__ in [UVM_SETINT, UVM_SETSTR, UVM_SETOBJ]:
             if T_cont.m_do_cycle_check(self):
                 return
-- 
2.43.0


From 34e0af23a8d0948aacbb1cfddc3dc11d8f5e397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 073/131] fix: copies of objects with shared, referenced and
 array fields

---
 src/uvm/macros/uvm_object_defines.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 9d2e608..980c1f1 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -156,7 +156,15 @@ def uvm_field_utils_start(T):
                 if not(mask_v & UVM_NOCOPY) and (mask_v & UVM_COPY != 0):
                     v_attr = getattr(rhs, v)
                     if hasattr(v_attr, "clone"):
-                        setattr(self, v, v_attr.clone())
+                        if mask_v & UVM_REFERENCE:
+                            setattr(self, v, v_attr)
+                        elif v_attr in UVMObject.uvm_global_copy_map:
+                            # Already copied during this operation
+                            setattr(self, v, UVMObject.uvm_global_copy_map[v_attr])
+                        else:
+                            setattr(self, v, v_attr.clone())
+                    elif isinstance(v_attr, (list, dict)):
+                        setattr(self, v, v_attr.copy())
                     else:
                         setattr(self, v, v_attr)
         elif what__ == UVM_COMPARE:
-- 
2.43.0


From e3d0fc02e3f1eda7bbfcfcb5def501fd733e7a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 074/131] fix: compare reports differences in null objects and
 in arrays

---
 src/uvm/macros/uvm_object_defines.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 980c1f1..eae79bf 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -175,15 +175,20 @@ def uvm_field_utils_start(T):
                     v_attr_self = getattr(self, v)
                     # Try simple equality first
                     if v_attr_rhs != v_attr_self:
-                        if isinstance(v_attr_self, int):
+                        if isinstance(v_attr_self, int) and isinstance(v_attr_rhs, int):
                             T_cont.comparer.compare_field(v,
                                 v_attr_self, v_attr_rhs, 0)
-                        elif isinstance(v_attr_self, str):
+                        elif isinstance(v_attr_self, str) and isinstance(v_attr_rhs, str):
                             T_cont.comparer.compare_string(v,
                                 v_attr_self, v_attr_rhs, 0)
-                        elif hasattr(v_attr_self, "compare"):
+                        elif all(x is None or hasattr(x, "compare")
+                                for x in (v_attr_self, v_attr_rhs)):
                             T_cont.comparer.compare_object(v,
                                 v_attr_self, v_attr_rhs)
+                        else:
+                            T_cont.scope.set_arg(v)
+                            T_cont.comparer.print_msg("lhs = {} : rhs = {}".format(
+                                v_attr_self, v_attr_rhs))
 
                         if (T_cont.comparer.result and
                                 T_cont.comparer.show_max <= T_cont.comparer.result):
-- 
2.43.0


From fd34cc389390c20efd062e22e79f4c66df51a312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 075/131] fix: comparing an object with None is a mismatch

---
 src/uvm/base/uvm_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_object.py b/src/uvm/base/uvm_object.py
index 2ccbb0f..0927a1b 100644
--- a/src/uvm/base/uvm_object.py
+++ b/src/uvm/base/uvm_object.py
@@ -620,7 +620,7 @@ class UVMObject(sv_obj):
                      cls._m_uvm_status_container.scope.get(),
                       self.get_inst_id()),
                       cls._m_uvm_status_container.comparer.verbosity)
-                done = 1
+            done = 1
 
         if(not done and comparer.compare_map.exists(rhs)):
             if(comparer.compare_map[rhs] != self):
-- 
2.43.0


From 8ebdd0a5b98721c50a9822910025c66ab93d8dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 076/131] fix: compare_field compares the given number of bits

---
 src/uvm/base/uvm_comparer.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/uvm/base/uvm_comparer.py b/src/uvm/base/uvm_comparer.py
index 0651039..2bc9fed 100644
--- a/src/uvm/base/uvm_comparer.py
+++ b/src/uvm/base/uvm_comparer.py
@@ -167,10 +167,7 @@ class UVMComparer:
         Returns:
 
         """
-        mask = 0
-        msg = ""
-        if size <= 64:
-            return self.compare_field_int(name, lhs, rhs, size, radix)
+        return self.compare_field_int(name, lhs, rhs, size, radix)
         #
         #    mask = -1
         #    mask >>= (UVM_STREAMBITS-size)
@@ -235,10 +232,10 @@ class UVMComparer:
             radix:
         Returns:
         """
-        mask = 0x0
-        msg = ""
         mask = -1
-        mask >>= (64-size)
+        msg = ""
+        if size > 0:  # size 0: all bits
+            mask = (1 << size) - 1
         if (lhs & mask) != (rhs & mask):
             UVMObject._m_uvm_status_container.scope.set_arg(name)
             msg = "lhs = {} : rhs = {}".format(lhs, rhs)
-- 
2.43.0


From e0afd5fb5dc17ae18e63ae312cf16d4e89fa007c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 077/131] fix: comparing string fields which differ does not
 crash

---
 src/uvm/macros/uvm_object_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index eae79bf..b0e1a6c 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -180,7 +180,7 @@ def uvm_field_utils_start(T):
                                 v_attr_self, v_attr_rhs, 0)
                         elif isinstance(v_attr_self, str) and isinstance(v_attr_rhs, str):
                             T_cont.comparer.compare_string(v,
-                                v_attr_self, v_attr_rhs, 0)
+                                v_attr_self, v_attr_rhs)
                         elif all(x is None or hasattr(x, "compare")
                                 for x in (v_attr_self, v_attr_rhs)):
                             T_cont.comparer.compare_object(v,
-- 
2.43.0


From edfcf49e719029b166767336c2e835826594c85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 078/131] fix: packer packs the given number of bits of
 negative and wider values

---
 src/uvm/base/uvm_packer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index 40d2e7c..fa69bbb 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -155,11 +155,11 @@ class UVMPacker(object):
     def pack_field(self, value, size) -> None:
         #  for (int i=0; i<size; i++)
         if self.big_endian == 1:
-            flipped = self.flip_bit_order(value, size)
+            flipped = self.flip_bit_order(value & ((1 << size) - 1), size)
             self.m_bits |= flipped << self.count
             # self.m_bits[count+i] = value[size-1-i]
         else:
-            self.m_bits |= value << self.count
+            self.m_bits |= (value & ((1 << size) - 1)) << self.count
         self.count += size
 
 
@@ -171,11 +171,11 @@ class UVMPacker(object):
     #  // to 64 bits.
     def pack_field_int(self, value: int, size: int) -> None:
         if self.big_endian == 1:
-            flipped = self.flip_bit_order(value, size)
+            flipped = self.flip_bit_order(value & ((1 << size) - 1), size)
             self.m_bits |= flipped << self.count
             #self.m_bits[self.count+i] = value[size-1-i]
         else:
-            self.m_bits |= value << self.count
+            self.m_bits |= (value & ((1 << size) - 1)) << self.count
             #self.m_bits[self.count+i] = value[i]
         self.count += size
 
@@ -732,7 +732,7 @@ class UVMPacker(object):
 
     def flip_bit_order(self, value, size: int) -> int:
         flipped = 0x0
-        num_bits = len(bin(value)) - 2
+        num_bits = value.bit_length()
         while value:
             flipped = (flipped << 1) + (value & 0x1)  # Choose LSB
             value = value >> 1
-- 
2.43.0


From 4cb775589bff60bd1ff280fa8ed9cc79faaa3ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 079/131] fix: packer packs/unpacks the given number of bits of
 arrays at the current position

---
 src/uvm/base/uvm_packer.py | 39 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index fa69bbb..bcaa09c 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -206,12 +206,10 @@ class UVMPacker(object):
                 size, max_size))
             return
         else:
+            bits = 0
             for i in range(len(value)):
-                byte = value[i]
-                if self.big_endian == 1:
-                    byte = self.flip_bit_order(value[len(value)-1-i], 8)
-                self.m_bits |= byte << self.count
-                self.count += 8
+                bits |= (value[i] & 0xFF) << (i * 8)
+            self.pack_field(bits, size)
 
 
     #  // Function: pack_ints
@@ -254,13 +252,10 @@ class UVMPacker(object):
                     size, max_size))
             return
         else:
+            bits = 0
             for i in range(len(value)):
-                int_num = value[i]
-                if self.big_endian == 1:
-                    int_num = self.flip_bit_order(value[len(value)-1-i],
-                        SIZEOF_INT)
-                self.m_bits |= int_num << self.count
-                self.count += SIZEOF_INT
+                bits |= (value[i] & MASK_INT) << (i * SIZEOF_INT)
+            self.pack_field(bits, size)
 
 
     #  // Function: pack_string
@@ -450,14 +445,11 @@ class UVMPacker(object):
             return []
         else:
             if self.enough_bits(size, "integral"):
-                self.count += size
+                bits = self.unpack_field(size)
                 for b in range(len(value)):
-                    byte = (self.m_bits >> b * 8) & 0xFF
-                    if self.big_endian == 1:
-                        byte = self.flip_bit_order(byte, 8)
-                        value[len(value)-1-b] = byte
-                    else:
-                        value[b] = byte
+                    # bits of value beyond size are left as they are
+                    mask = (((1 << size) - 1) >> (b * 8)) & 0xFF
+                    value[b] = (value[b] & ~mask) | ((bits >> (b * 8)) & mask)
             return value
 
 
@@ -501,14 +493,11 @@ class UVMPacker(object):
             return
         else:
             if self.enough_bits(size, "integral"):
-                self.count += size
+                bits = self.unpack_field(size)
                 for i in range(len(value)):
-                    int_num = (self.m_bits >> i * SIZEOF_INT) & 0xFFFFFFFF
-                    if self.big_endian == 1:
-                        int_num = self.flip_bit_order(int_num, SIZEOF_INT)
-                        value[len(value)-1-i] = int_num
-                    else:
-                        value[i] = int_num
+                    # bits of value beyond size are left as they are
+                    mask = (((1 << size) - 1) >> (i * SIZEOF_INT)) & MASK_INT
+                    value[i] = (value[i] & ~mask) | ((bits >> (i * SIZEOF_INT)) & mask)
             return value
 
 
-- 
2.43.0


From eb92435210205df0fa3c5da15fb63793d8e4fafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 080/131] fix: packed strings can be unpacked in both bit
 orders, also when followed by other values or empty

---
 src/uvm/base/uvm_packer.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index bcaa09c..02614ab 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -270,17 +270,10 @@ class UVMPacker(object):
     #
     #  extern def pack_string(self,string value):
     def pack_string(self, value) -> None:
-        bytearr = value.encode()
-
-        size = 8 * len(bytearr)
-        bits = int(bytearr.hex(), 16)
-        if self.big_endian == 1:
-            bits = self.flip_bit_order(bits, -1)
-        self.m_bits |= bits << self.count
-        self.count += size
+        for byte in value.encode():
+            self.pack_field_int(byte, 8)
         if self.use_metadata == 1:
-            pass
-            # TODO self.m_bits |= 0 << self.count
+            self.pack_field_int(0, 8)
         #  byte b
         #  foreach (value[index]):
         #    if(self.big_endian == 0)
@@ -501,6 +494,13 @@ class UVMPacker(object):
             return value
 
 
+    def get_char(self) -> int:
+        char = (self.m_bits >> self.count) & 0xFF
+        if self.big_endian == 1:
+            char = self.flip_bit_order(char, 8)
+        return char
+
+
     #  // Function: unpack_string
     #  //
     #  // Unpacks a string.
@@ -522,7 +522,7 @@ class UVMPacker(object):
 
         byte_arr = bytearray()
         #unpack_string = 0
-        curr_byte = (self.m_bits >> self.count) & 0xFF
+        curr_byte = self.get_char()
         while (self.enough_bits(8,"string", is_error=False) and
               ((curr_byte != 0) or (is_null_term == 0)) and
               ((i < num_chars) or (is_null_term == 1))):
@@ -535,10 +535,10 @@ class UVMPacker(object):
             #        b[7-j] = self.m_bits[count+j]
             #  unpack_string[i] = b
             i += 1
-            byte_arr.insert(0, curr_byte)
+            byte_arr.append(curr_byte)
             self.count += 8
-            curr_byte = (self.m_bits >> self.count) & 0xFF
-        if self.enough_bits(8,"string", is_error=False):
+            curr_byte = self.get_char()
+        if is_null_term == 1 and self.enough_bits(8,"string", is_error=False):
             self.count += 8
         return byte_arr.decode()
         #return unpack_string
-- 
2.43.0


From 83714fe5f51b7b1f0f36a6aab8274322658e1554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 081/131] fix: null objects can be packed, and metadata tells
 them from other objects

---
 src/uvm/base/uvm_packer.py           | 50 ++++++++++++----------------
 src/uvm/macros/uvm_object_defines.py |  4 +--
 2 files changed, 23 insertions(+), 31 deletions(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index 02614ab..c4a2388 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -322,28 +322,26 @@ class UVMPacker(object):
     #
     #  extern def pack_object(self,uvm_object value):
     def pack_object(self, value) -> None:
-        if value in value._m_uvm_status_container.cycle_check:
-            uvm_warning("CYCFND", sv.sformatf("Cycle detected for object @%0d during pack",
-                value.get_inst_id()))
-            return
-
-        value._m_uvm_status_container.cycle_check[value] = 1
+        if value is not None:
+            if value in value._m_uvm_status_container.cycle_check:
+                uvm_warning("CYCFND", sv.sformatf("Cycle detected for object @%0d during pack",
+                    value.get_inst_id()))
+                return
+            value._m_uvm_status_container.cycle_check[value] = 1
 
         if((self.policy != UVM_REFERENCE) and value is not None):
             if self.use_metadata == 1:
-                pass
-                #self.m_bits[count +: 4] = 1
-                #count += 4; // to better debug when display packed bits in hexadecimal
+                self.m_bits |= 1 << self.count
+                self.count += 4  # to better debug when display packed bits in hexadecimal
 
             self.scope.down(value.get_name())
             value._m_uvm_field_automation(None, UVM_PACK,"")
             value.do_pack(self)
             self.scope.up()
         elif self.use_metadata == 1:
-            pass
-            #self.m_bits[count +: 4] = 0
-            #count += 4
-        del value._m_uvm_status_container.cycle_check[value]
+            self.count += 4
+        if value is not None:
+            del value._m_uvm_status_container.cycle_check[value]
 
 
     #  //------------------//
@@ -580,14 +578,15 @@ class UVMPacker(object):
     def unpack_object(self, value):
         is_non_null = 1
 
-        if value in value._m_uvm_status_container.cycle_check:
-            uvm_warning("CYCFND", sv.sformatf(
-                "Cycle detected for object @%0d during unpack", value.get_inst_id()))
-            return
-        value._m_uvm_status_container.cycle_check[value] = 1
+        if value is not None:
+            if value in value._m_uvm_status_container.cycle_check:
+                uvm_warning("CYCFND", sv.sformatf(
+                    "Cycle detected for object @%0d during unpack", value.get_inst_id()))
+                return
+            value._m_uvm_status_container.cycle_check[value] = 1
 
         if self.use_metadata == 1:
-            is_non_null = get_bits(self.m_bits, self.count, 4) != 0  # [count +: 4]
+            is_non_null = ((self.m_bits >> self.count) & 0xF) != 0  # [count +: 4]
             self.count += 4
 
         # NOTE- policy is a ~pack~ policy, not unpack policy;
@@ -605,7 +604,8 @@ class UVMPacker(object):
                 #       this does not nullify argument; need to pass obj by ref
         elif ((is_non_null != 0) and (value is None)):
              uvm_error("UNPOBJ","cannot unpack into None object")
-        del value._m_uvm_status_container.cycle_check[value]
+        if value is not None:
+            del value._m_uvm_status_container.cycle_check[value]
 
 
     #  // Function: get_packed_size
@@ -938,12 +938,4 @@ class UVMPacker(object):
 #   end
 #endfunction
 #
-#
-
-def get_bits(bits, count, nbits):  # [count +: 4]
-    val = 0x0
-    idx = 0
-    for i in range(count, count + nbits + 1):
-        val |= (1 << (nbits - idx)) & (bits >> (i-idx))
-        idx += 1
-    return val
+#
\ No newline at end of file
diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index b0e1a6c..4015afe 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -291,7 +291,7 @@ def uvm_field_utils_start(T):
                     val = getattr(self, v)
                     if isinstance(val, int):
                         T_cont.packer.pack_field_int(val, sv.bits(val))
-                    elif isinstance(val, UVMObject):
+                    elif val is None or isinstance(val, UVMObject):
                         T_cont.packer.pack_object(val)
                     elif isinstance(val, str):
                         T_cont.packer.pack_string(val)
@@ -304,7 +304,7 @@ def uvm_field_utils_start(T):
                     val = getattr(self, v)
                     if isinstance(val, int):
                         rhs = T_cont.packer.unpack_field_int(sv.bits(val))
-                    elif isinstance(val, UVMObject):
+                    elif val is None or isinstance(val, UVMObject):
                         T_cont.packer.unpack_object(val)
                         rhs = val
                     elif isinstance(val, str):
-- 
2.43.0


From 755ccaae750c2a9ac0fea7af17439cc11cb71364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:46 +0000
Subject: [PATCH 082/131] fix: objects can be unpacked from packed bits ending
 in zeros, from bytes and from ints

---
 src/uvm/base/uvm_packer.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index c4a2388..c33e46f 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -31,6 +31,7 @@ from typing import List
 
 SIZEOF_INT = 32
 MASK_INT = 0xFFFFFFFF
+UVM_MAX_PACKED_BITS = 4096
 
 
 class UVMPacker(object):
@@ -686,11 +687,29 @@ class UVMPacker(object):
         #      self.m_bits[i] = bitstream[i]
         #
         self.m_bits = bitstream
-        self.m_packed_size = len(bin(self.m_bits)) - 2
+        # An int does not tell how many zeros it starts with
+        self.m_packed_size = max(self.m_bits.bit_length(), UVM_MAX_PACKED_BITS)
         self.count = 0
 
     #  extern def put_bytes(self,ref byte unsigned bytestream[]):
+    def put_bytes(self, bytestream):
+        self.m_bits = 0
+        for i, byte in enumerate(bytestream):
+            if self.big_endian:
+                byte = self.flip_bit_order(byte, 8)
+            self.m_bits |= byte << (i * 8)
+        self.m_packed_size = len(bytestream) * 8
+        self.count = 0
+
     #  extern def put_ints(self,ref int unsigned intstream[]):
+    def put_ints(self, intstream):
+        self.m_bits = 0
+        for i, int_num in enumerate(intstream):
+            if self.big_endian:
+                int_num = self.flip_bit_order(int_num, SIZEOF_INT)
+            self.m_bits |= int_num << (i * SIZEOF_INT)
+        self.m_packed_size = len(intstream) * SIZEOF_INT
+        self.count = 0
 
 
     def set_packed_size(self):
-- 
2.43.0


From 03f1ff29d292f8223ed8eeb393ca970145f356ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 083/131] fix: objects packed directly by a packer are packed
 into that packer

---
 src/uvm/base/uvm_packer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index c33e46f..bdce91e 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -329,6 +329,7 @@ class UVMPacker(object):
                     value.get_inst_id()))
                 return
             value._m_uvm_status_container.cycle_check[value] = 1
+            value._m_uvm_status_container.packer = self
 
         if((self.policy != UVM_REFERENCE) and value is not None):
             if self.use_metadata == 1:
@@ -585,6 +586,7 @@ class UVMPacker(object):
                     "Cycle detected for object @%0d during unpack", value.get_inst_id()))
                 return
             value._m_uvm_status_container.cycle_check[value] = 1
+            value._m_uvm_status_container.packer = self
 
         if self.use_metadata == 1:
             is_non_null = ((self.m_bits >> self.count) & 0xF) != 0  # [count +: 4]
-- 
2.43.0


From ba02641bb343e10b04a0355c832796b37d256436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 084/131] fix: slices of queues

---
 src/uvm/base/uvm_queue.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/uvm/base/uvm_queue.py b/src/uvm/base/uvm_queue.py
index 1be026e..1ff2e6c 100644
--- a/src/uvm/base/uvm_queue.py
+++ b/src/uvm/base/uvm_queue.py
@@ -137,11 +137,7 @@ class UVMQueue(UVMObject, Generic[T]):
         Raises:
         """
         if isinstance(i, slice):
-            # TODO should handle slices like [:] and [:-1]
-            res = []
-            for i in range(slice.start, slice.stop):
-                res.append(self.queue[i])
-            return res
+            return self.queue[i]
         elif i < self.size():
             return self.queue[i]
         else:
-- 
2.43.0


From bfac419c2016fe46eac30ba5a4e50b2256e27b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 085/131] fix: copies of queues and pools have the same
 contents and are independent

---
 src/uvm/base/uvm_pool.py  | 13 +++++++++++++
 src/uvm/base/uvm_queue.py |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index 71a20f9..896da8e 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -164,6 +164,13 @@ class UVMPool(UVMObject, Generic[KEY, VAL]):
     def create(self, name="") -> 'UVMPool':
         return UVMPool(name, self.T)
 
+    def do_copy(self, rhs) -> None:
+        if rhs is None:
+            return
+        UVMObject.do_copy(self, rhs)
+        self.pool = rhs.pool.copy()
+        self.ptr = -1
+
     def do_print(self, printer) -> None:
         while self.has_next():
             key = self.next()
@@ -307,6 +314,12 @@ class UVMObjectStringPool(UVMPool[str, UVMObject]):
         return self.pool[key]
 
 
+    def create(self, name="") -> 'UVMObjectStringPool':
+        pool = type(self)(name)
+        pool.Constructor = self.Constructor
+        return pool
+
+
     def delete(self, key: str) -> None:
         """
         Removes the item with the given string `key` from the pool.
diff --git a/src/uvm/base/uvm_queue.py b/src/uvm/base/uvm_queue.py
index 1ff2e6c..fc192c8 100644
--- a/src/uvm/base/uvm_queue.py
+++ b/src/uvm/base/uvm_queue.py
@@ -246,7 +246,7 @@ class UVMQueue(UVMObject, Generic[T]):
         if rhs is None:
             return
         UVMObject.do_copy(self, rhs)
-        self.queue = rhs.queue
+        self.queue = rhs.queue.copy()
 
     def convert2string(self) -> str:
         return str(self.queue)
-- 
2.43.0


From 71bccc356eaefadf086ef081505b8bacbd03fda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 086/131] fix: deleting from pools of objects, and event and
 barrier pools have global pools of their own

---
 src/uvm/base/uvm_pool.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index 896da8e..246ed11 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -277,9 +277,9 @@ class UVMObjectStringPool(UVMPool[str, UVMObject]):
         Returns:
             UVMObjectStringPool: Global pool
         """
-        if UVMObjectStringPool.m_global_pool is None:
-            UVMObjectStringPool.m_global_pool = UVMObjectStringPool("global_pool")
-        return UVMObjectStringPool.m_global_pool
+        if cls.__dict__.get("m_global_pool") is None:
+            cls.m_global_pool = cls("global_pool")
+        return cls.m_global_pool
 
 
     @classmethod
@@ -293,7 +293,7 @@ class UVMObjectStringPool(UVMPool[str, UVMObject]):
         Returns:
             any: Object matching the key in the global pool.
         """
-        gpool = UVMObjectStringPool.get_global_pool()
+        gpool = cls.get_global_pool()
         return gpool.get(key)
 
 
@@ -330,7 +330,7 @@ class UVMObjectStringPool(UVMPool[str, UVMObject]):
         if not self.exists(key):
             uvm_warning("POOLDEL", "delete: key '{}' doesn't exist".format(key))
             return
-        self.delete(key)
+        UVMPool.delete(self, key)
     #  endfunction
 
     def do_print(self, printer) -> None:
-- 
2.43.0


From 0b46e7ac4b28978fb0ddbb3d09c82c17ea8e1a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 087/131] fix: deleting from and printing pools does not
 disturb iterating over them

---
 src/uvm/base/uvm_pool.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index 246ed11..8e8f035 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -108,9 +108,13 @@ class UVMPool(UVMObject, Generic[KEY, VAL]):
 
     def delete(self, key=None) -> None:
         if key is None:
-            self.pool = {}
+            self.pool = collections.OrderedDict()
+            self.ptr = -1
         else:
             if key in self.pool:
+                # the iteration continues after the deleted key
+                if self.ptr >= 0 and self.key_list().index(key) <= self.ptr:
+                    self.ptr -= 1
                 del self.pool[key]
 
     def exists(self, key: KEY) -> bool:
@@ -172,8 +176,7 @@ class UVMPool(UVMObject, Generic[KEY, VAL]):
         self.ptr = -1
 
     def do_print(self, printer) -> None:
-        while self.has_next():
-            key = self.next()
+        for key in self.pool:
             item = self.pool[key]
             # print_generic(self, name, type_name, size, value, scope_separator="."):
             if hasattr(item, 'convert2string'):
@@ -340,17 +343,10 @@ class UVMObjectStringPool(UVMPool[str, UVMObject]):
         Args:
             printer (UVMPrinter): Printer used for printing
         """
-        key = ""
         num_keys = len(list(self.pool.keys()))
         printer.print_array_header("pool", num_keys,"aa_object_string")
-        if self.has_first():
-            key = self.first()
-            while True:
-                printer.print_object("[" + key + "]", self.pool[key],"[")
-                if self.has_next():
-                    key = self.next()
-                else:
-                    break
+        for key in self.pool:
+            printer.print_object("[" + key + "]", self.pool[key],"[")
         printer.print_array_footer()
     # endfunction
 
-- 
2.43.0


From ef42c6f99730d1d0b9051e42779855b374eb6347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:09 +0000
Subject: [PATCH 088/131] fix: semaphores grant requests in order as soon as
 there are enough keys, and no more keys than there are

---
 src/uvm/base/sv.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index 622a3ff..18825f9 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -33,7 +33,7 @@ from typing import List, Any
 import cocotb
 
 from cocotb_coverage import crv
-from cocotb.triggers import Lock, Timer, Combine, First
+from cocotb.triggers import Event, Lock, Timer, Combine, First
 from cocotb.utils import get_sim_time, simulator
 from cocotb_bus.bus import Bus
 
@@ -518,30 +518,21 @@ class sv_obj(crv.Randomized):
 class semaphore():
 
     def __init__(self, count=1):
-        self.max_count = count
         self.count = count
-        self.lock = Lock("sem_lock")
-        self.locked = False
+        self.waiting = []  # requests [count, event] which are not granted yet
 
 
     async def get(self, count=1):
-        if self.count > count:
-            self.count -= count
-            await Timer(0, "NS")
-        elif count > self.max_count:
-            raise Exception("Tried to get {} > max count {}".format(count,
-                self.max_count))
-        else:
-            await self.lock.acquire()
-            self.locked = True
-            self.count -= count
+        if len(self.waiting) == 0 and self.try_get(count):
+            return
+        granted = Event("sem_get")
+        self.waiting.append([count, granted])
+        await granted.wait()
 
     def put(self, count=1):
-        if self.count < self.max_count:
-            self.count += count
-            if self.locked is True:
-                self.locked = False
-                self.lock.release()
+        self.count += count
+        while len(self.waiting) > 0 and self.try_get(self.waiting[0][0]):
+            self.waiting.pop(0)[1].set()
 
     def try_get(self, count=1):
         if self.count >= count:
-- 
2.43.0


From c204832f44ef2f2dadd9b3f31f0253b11de3d84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 089/131] fix: try_set and try_get of all access-policy
 containers

---
 src/uvm/dap/uvm_get_to_lock_dap.py    | 23 +++++++++++------------
 src/uvm/dap/uvm_set_before_get_dap.py |  8 +++-----
 src/uvm/dap/uvm_simple_lock_dap.py    | 23 +++++++++++------------
 3 files changed, 25 insertions(+), 29 deletions(-)

diff --git a/src/uvm/dap/uvm_get_to_lock_dap.py b/src/uvm/dap/uvm_get_to_lock_dap.py
index 98616d2..7cb1251 100644
--- a/src/uvm/dap/uvm_get_to_lock_dap.py
+++ b/src/uvm/dap/uvm_get_to_lock_dap.py
@@ -26,6 +26,7 @@ from typing import Any
 
 from .uvm_set_get_dap_base import uvm_set_get_dap_base
 from ..base.sv import sv
+from ..base.uvm_globals import uvm_check_output_args
 from ..macros import uvm_error, uvm_object_utils
 
 ERR_MSG1 = ("Attempt to set new value on '%s', but the data access policy " +
@@ -77,14 +78,12 @@ class uvm_get_to_lock_dap(uvm_set_get_dap_base):
     #   // updated, or a 0 if the value can not be updated due
     #   // to ~get~ having been called.  No errors will be reported
     #   // if ~try_set~ fails.
-    #   virtual function bit try_set(T value);
-    #      if (m_locked)
-    #        return 0;
-    #      else begin
-    #         m_value = value;
-    #         return 1;
-    #      end
-    #   endfunction : try_set
+    def try_set(self, value):
+        if self.m_locked:
+            return 0
+        else:
+            self.m_value = value
+            return 1
 
     #   // Function: get
     #   // Returns the current value stored within the DAP, and 'locks' the DAP.
@@ -99,10 +98,10 @@ class uvm_get_to_lock_dap(uvm_set_get_dap_base):
     #   // Retrieves the current value stored within the DAP, and 'locks' the DAP.
     #   //
     #   // ~try_get~ will always return 1.
-    #   virtual function bit try_get(output T value);
-    #      value = get();
-    #      return 1;
-    #   endfunction : try_get
+    def try_get(self, value):
+        uvm_check_output_args([value])
+        value.append(self.get())
+        return 1
     #
     #   // Group: Introspection
     #   //
diff --git a/src/uvm/dap/uvm_set_before_get_dap.py b/src/uvm/dap/uvm_set_before_get_dap.py
index 9e2b607..55e6f7f 100644
--- a/src/uvm/dap/uvm_set_before_get_dap.py
+++ b/src/uvm/dap/uvm_set_before_get_dap.py
@@ -101,11 +101,9 @@ class uvm_set_before_get_dap(uvm_set_get_dap_base):
     #   // Attempts to update the value stored within the DAP.
     #   //
     #   // ~try_set~ will always return a 1.
-    #   virtual function bit try_set(T value);
-    #      set(value);
-    #      return 1;
-    #   endfunction : try_set
-    #
+    def try_set(self, value):
+        self.set(value)
+        return 1
 
     #   // Function: get
     #   // Returns the current value stored within the DAP.
diff --git a/src/uvm/dap/uvm_simple_lock_dap.py b/src/uvm/dap/uvm_simple_lock_dap.py
index 36207a6..38811ab 100644
--- a/src/uvm/dap/uvm_simple_lock_dap.py
+++ b/src/uvm/dap/uvm_simple_lock_dap.py
@@ -25,6 +25,7 @@ from .uvm_set_get_dap_base import uvm_set_get_dap_base
 from ..macros.uvm_object_defines import uvm_object_utils
 from ..macros.uvm_message_defines import *
 from ..base.sv import sv
+from ..base.uvm_globals import uvm_check_output_args
 
 ERR_MSG1 = "Attempt to set new value on '%s', but the data access policy forbids setting while locked!"
 
@@ -72,14 +73,12 @@ class uvm_simple_lock_dap(uvm_set_get_dap_base):
     #   // updated, or a 0 if the value can not be updated due
     #   // to the DAP being locked.  No errors will be reported
     #   // if ~try_set~ fails.
-    #   virtual function bit try_set(T value);
-    #      if (m_locked)
-    #        return 0;
-    #      else begin
-    #         m_value = value;
-    #         return 1;
-    #      end
-    #   endfunction : try_set
+    def try_set(self, value):
+        if self.m_locked:
+            return 0
+        else:
+            self.m_value = value
+            return 1
     #
 
     #   // Function: get
@@ -92,10 +91,10 @@ class uvm_simple_lock_dap(uvm_set_get_dap_base):
     #   // Retrieves the current value stored within the DAP
     #   //
     #   // ~try_get~ will always return 1.
-    #   virtual function bit try_get(output T value);
-    #      value = get();
-    #      return 1;
-    #   endfunction : try_get
+    def try_get(self, value):
+        uvm_check_output_args([value])
+        value.append(self.get())
+        return 1
     #
 
     #   // Group: Locking
-- 
2.43.0


From 81e0fc804f2e00a4140182bd638c839d604eaa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 090/131] fix: access-policy containers refuse to be copied,
 packed and unpacked

---
 src/uvm/dap/uvm_get_to_lock_dap.py    | 21 +++++++++------------
 src/uvm/dap/uvm_set_before_get_dap.py | 21 +++++++++------------
 src/uvm/dap/uvm_simple_lock_dap.py    | 21 +++++++++------------
 3 files changed, 27 insertions(+), 36 deletions(-)

diff --git a/src/uvm/dap/uvm_get_to_lock_dap.py b/src/uvm/dap/uvm_get_to_lock_dap.py
index 7cb1251..ed0a305 100644
--- a/src/uvm/dap/uvm_get_to_lock_dap.py
+++ b/src/uvm/dap/uvm_get_to_lock_dap.py
@@ -112,20 +112,17 @@ class uvm_get_to_lock_dap(uvm_set_get_dap_base):
     #   //
     #   // A call to any of these methods will result in an error.
     #
-    #   virtual function void do_copy(uvm_object rhs);
-    #      `uvm_error("UVM/GET_TO_LOCK_DAP/CPY",
-    #                 "'copy()' is not supported for 'uvm_get_to_lock_dap#(T)'")
-    #   endfunction : do_copy
+    def do_copy(self, rhs):
+        uvm_error("UVM/GET_TO_LOCK_DAP/CPY",
+            "'copy()' is not supported for 'uvm_get_to_lock_dap'")
     #
-    #   virtual function void do_pack(uvm_packer packer);
-    #      `uvm_error("UVM/GET_TO_LOCK_DAP/PCK",
-    #                 "'pack()' is not supported for 'uvm_get_to_lock_dap#(T)'")
-    #   endfunction : do_pack
+    def do_pack(self, packer):
+        uvm_error("UVM/GET_TO_LOCK_DAP/PCK",
+            "'pack()' is not supported for 'uvm_get_to_lock_dap'")
     #
-    #   virtual function void do_unpack(uvm_packer packer);
-    #      `uvm_error("UVM/GET_TO_LOCK_DAP/UPK",
-    #                 "'unpack()' is not supported for 'uvm_get_to_lock_dap#(T)'")
-    #   endfunction : do_unpack
+    def do_unpack(self, packer):
+        uvm_error("UVM/GET_TO_LOCK_DAP/UPK",
+            "'unpack()' is not supported for 'uvm_get_to_lock_dap'")
     #
     #   // Group- Reporting
     #
diff --git a/src/uvm/dap/uvm_set_before_get_dap.py b/src/uvm/dap/uvm_set_before_get_dap.py
index 55e6f7f..07c18ec 100644
--- a/src/uvm/dap/uvm_set_before_get_dap.py
+++ b/src/uvm/dap/uvm_set_before_get_dap.py
@@ -140,20 +140,17 @@ class uvm_set_before_get_dap(uvm_set_get_dap_base):
     #   //
     #   // A call to any of these methods will result in an error.
     #
-    #   virtual function void do_copy(uvm_object rhs);
-    #      `uvm_error("UVM/SET_BEFORE_GET_DAP/CPY",
-    #                 "'copy()' is not supported for 'uvm_set_before_get_dap#(T)'")
-    #   endfunction : do_copy
+    def do_copy(self, rhs):
+        uvm_error("UVM/SET_BEFORE_GET_DAP/CPY",
+            "'copy()' is not supported for 'uvm_set_before_get_dap'")
     #
-    #   virtual function void do_pack(uvm_packer packer);
-    #      `uvm_error("UVM/SET_BEFORE_GET_DAP/PCK",
-    #                 "'pack()' is not supported for 'uvm_set_before_get_dap#(T)'")
-    #   endfunction : do_pack
+    def do_pack(self, packer):
+        uvm_error("UVM/SET_BEFORE_GET_DAP/PCK",
+            "'pack()' is not supported for 'uvm_set_before_get_dap'")
     #
-    #   virtual function void do_unpack(uvm_packer packer);
-    #      `uvm_error("UVM/SET_BEFORE_GET_DAP/UPK",
-    #                 "'unpack()' is not supported for 'uvm_set_before_get_dap#(T)'")
-    #   endfunction : do_unpack
+    def do_unpack(self, packer):
+        uvm_error("UVM/SET_BEFORE_GET_DAP/UPK",
+            "'unpack()' is not supported for 'uvm_set_before_get_dap'")
     #
     #   // Group- Reporting
     #
diff --git a/src/uvm/dap/uvm_simple_lock_dap.py b/src/uvm/dap/uvm_simple_lock_dap.py
index 38811ab..d7a5635 100644
--- a/src/uvm/dap/uvm_simple_lock_dap.py
+++ b/src/uvm/dap/uvm_simple_lock_dap.py
@@ -131,22 +131,19 @@ class uvm_simple_lock_dap(uvm_set_get_dap_base):
     #   // violate the access policy.
     #   //
     #   // A call to any of these methods will result in an error.
-    #   virtual function void do_copy(uvm_object rhs);
-    #      `uvm_error("UVM/SIMPLE_LOCK_DAP/CPY",
-    #                 "'copy()' is not supported for 'uvm_simple_lock_dap#(T)'")
-    #   endfunction : do_copy
+    def do_copy(self, rhs):
+        uvm_error("UVM/SIMPLE_LOCK_DAP/CPY",
+            "'copy()' is not supported for 'uvm_simple_lock_dap'")
 
     #
-    #   virtual function void do_pack(uvm_packer packer);
-    #      `uvm_error("UVM/SIMPLE_LOCK_DAP/PCK",
-    #                 "'pack()' is not supported for 'uvm_simple_lock_dap#(T)'")
-    #   endfunction : do_pack
+    def do_pack(self, packer):
+        uvm_error("UVM/SIMPLE_LOCK_DAP/PCK",
+            "'pack()' is not supported for 'uvm_simple_lock_dap'")
 
     #
-    #   virtual function void do_unpack(uvm_packer packer);
-    #      `uvm_error("UVM/SIMPLE_LOCK_DAP/UPK",
-    #                 "'unpack()' is not supported for 'uvm_simple_lock_dap#(T)'")
-    #   endfunction : do_unpack
+    def do_unpack(self, packer):
+        uvm_error("UVM/SIMPLE_LOCK_DAP/UPK",
+            "'unpack()' is not supported for 'uvm_simple_lock_dap'")
 
     #
     #   // Group- Reporting
-- 
2.43.0


From d32f758cee1a81e147e4ef300160ec785cdd43c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:23 +0000
Subject: [PATCH 091/131] fix: in-order comparator accepts policies which
 return a bit (0 counts as mismatch)

---
 src/uvm/comps/uvm_in_order_comparator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/comps/uvm_in_order_comparator.py b/src/uvm/comps/uvm_in_order_comparator.py
index 218a4bf..1dc97df 100644
--- a/src/uvm/comps/uvm_in_order_comparator.py
+++ b/src/uvm/comps/uvm_in_order_comparator.py
@@ -167,7 +167,7 @@ class UVMInOrderComparator(UVMComponent):
             a = arr_a[0]
 
             # pytype: disable=wrong-arg-types
-            if self.CompType.comp(b, a) is False:
+            if not self.CompType.comp(b, a):
                 s = sv.sformatf("%s differs from %s", self.Convert.convert2string(a),
                     self.Convert.convert2string(b))
                 uvm_error("Comparator Mismatch", s)
-- 
2.43.0


From 9f259d90a9155fc3a5a1c975771f7e9bf0d8abd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:23 +0000
Subject: [PATCH 092/131] fix: pairs of comparators can be compared and copied

---
 src/uvm/comps/uvm_pair.py | 62 ++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 27 deletions(-)

diff --git a/src/uvm/comps/uvm_pair.py b/src/uvm/comps/uvm_pair.py
index 3f21905..31f8d81 100644
--- a/src/uvm/comps/uvm_pair.py
+++ b/src/uvm/comps/uvm_pair.py
@@ -29,7 +29,7 @@ This section defines container classes for handling value pairs.
 
 from uvm.base.sv import sv
 from uvm.base.uvm_object import UVMObject
-from uvm.macros import uvm_object_utils, uvm_error
+from uvm.macros import uvm_object_utils, uvm_error, uvm_fatal
 
 
 
@@ -86,22 +86,28 @@ class UVMClassPair(UVMObject):
         return s
 
 
-    #  def do_compare(self,uvm_object rhs, uvm_comparer comparer):
-    #    this_type rhs_
-    #    if(!sv.cast(rhs_,rhs)):
-    #      uvm_error("WRONG_TYPE", {"do_compare: rhs argument is not of type '",get_type_name(),"'"})
-    #      return 0
-    #    end
-    #    return first.compare(rhs_.first)  and  second.compare(rhs_.second)
-    #  endfunction
-
-    #  def do_copy(self,uvm_object rhs):
-    #    this_type rhs_
-    #    if(!sv.cast(rhs_,rhs))
-    #      uvm_fatal("WRONG_TYPE", {"do_copy: rhs argument is not of type '",get_type_name(),"'"})
-    #    first.copy(rhs_.first)
-    #    second.copy(rhs_.second)
-    #  endfunction
+    def do_compare(self, rhs, comparer):
+        rhs_ = []
+        if not sv.cast(rhs_, rhs, UVMClassPair):
+            uvm_error("WRONG_TYPE", ("do_compare: rhs argument is not of type '"
+                + self.get_type_name() + "'"))
+            return 0
+        for a, b in ((self.first, rhs_[0].first), (self.second, rhs_[0].second)):
+            if a is None or b is None:
+                if a is not b:
+                    return 0
+            elif not a.compare(b):
+                return 0
+        return 1
+
+    def do_copy(self, rhs):
+        rhs_ = []
+        if not sv.cast(rhs_, rhs, UVMClassPair):
+            uvm_fatal("WRONG_TYPE", ("do_copy: rhs argument is not of type '"
+                + self.get_type_name() + "'"))
+            return
+        self.first = None if rhs_[0].first is None else rhs_[0].first.clone()
+        self.second = None if rhs_[0].second is None else rhs_[0].second.clone()
 
 
 uvm_object_utils(UVMClassPair)
@@ -139,7 +145,7 @@ class UVMBuiltInPair(UVMObject):
     def __init__(self, name=""):
         super().__init__(name)
         self.first = 0
-        self.seconds = 0
+        self.second = 0
 
 
     def get_type_name(self):
@@ -153,18 +159,20 @@ class UVMBuiltInPair(UVMObject):
     def do_compare(self, rhs, comparer):
         rhs_ = []
         if not sv.cast(rhs_,rhs, UVMBuiltInPair):
-            uvm_error("WRONG_TYPE", {"do_compare: rhs argument is not of type '",
-                self.get_type_name(),"'"})
+            uvm_error("WRONG_TYPE", ("do_compare: rhs argument is not of type '"
+                + self.get_type_name() + "'"))
             return 0
-        rhs_ = rhs[0]
+        rhs_ = rhs_[0]
         return self.first == rhs_.first and self.second == rhs_.second
 
 
-    #  def do_copy(self,uvm_object rhs):
-    #    this_type rhs_
-    #    if(!sv.cast(rhs_,rhs))
-    #      uvm_fatal("WRONG_TYPE", {"do_copy: rhs argument is not of type '",get_type_name(),"'"})
-    #    first = rhs_.first
-    #    second = rhs_.second
+    def do_copy(self, rhs):
+        rhs_ = []
+        if not sv.cast(rhs_, rhs, UVMBuiltInPair):
+            uvm_fatal("WRONG_TYPE", ("do_copy: rhs argument is not of type '"
+                + self.get_type_name() + "'"))
+            return
+        self.first = rhs_[0].first
+        self.second = rhs_[0].second
 
 uvm_object_utils(UVMBuiltInPair)
-- 
2.43.0


From d5b7f6f9e0248792107f5239992c4e68dfa7d341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 093/131] fix: uvm_is_match matches the whole string

---
 src/uvm/base/uvm_globals.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_globals.py b/src/uvm/base/uvm_globals.py
index b20cadd..3087f05 100644
--- a/src/uvm/base/uvm_globals.py
+++ b/src/uvm/base/uvm_globals.py
@@ -247,7 +247,10 @@ def uvm_is_match(expr: str, _str: str) -> int:
     It must not contain any wildcards.
     """
     s = uvm_glob_to_re(expr)
-    return uvm_re_match(s, _str) == 0
+    if s == "" or (len(s) > 1 and s[0] == "/" and s[-1] == "/"):
+        return uvm_re_match(s, _str) == 0
+    # a glob matches the whole string
+    return uvm_re_match("^(?:" + s + r")\Z", _str) == 0
 
 
 UVM_LINE_WIDTH = 120
-- 
2.43.0


From 5a4db7c4adc0f99f1c165ce6ed4cc05b1343634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 094/131] fix: a resource is not visible in scopes which only
 begin with its scope

---
 src/uvm/base/uvm_resource.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index 52fbe0b..72d4fd4 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -434,7 +434,11 @@ class UVMResourceBase(UVMObject):
             s:
         Returns:
         """
-        err = uvm_re_match(self.scope, s)
+        scope = self.scope
+        if not (len(scope) > 1 and scope[0] == "/" and scope[-1] == "/"):
+            # a glob matches up to the end: a.b is not visible in a.bc
+            scope = "(?:" + scope + r")\Z"
+        err = uvm_re_match(scope, s)
         return (err == 0)
 
     #//----------------
-- 
2.43.0


From 051c2f8433258e52cb9fb32eaa96db5a9a1af1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 095/131] fix: + in globs stands for one or more characters,
 parentheses and braces for themselves

---
 src/uvm/base/sv.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index 18825f9..6cc2926 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -63,14 +63,18 @@ def uvm_glob_to_re(_str: str) -> str:
     """
     if _str is None or _str == "":
         return ""
-    if _str[0] == "/" and _str[-1] == "/":
+    if len(_str) > 1 and _str[0] == "/" and _str[-1] == "/":
         return _str
-    res = _str.replace('.', '\\.')
-    res = res.replace('*', '.*')
-    res = res.replace('[', '\\[')
-    res = res.replace(']', '\\]')
-    res = res.replace('?', '.')
-    # TODO add more substitutions
+    res = ""
+    for c in _str:
+        if c in "*+":
+            res += "." + c  # any characters (* zero or more, + one or more)
+        elif c == "?":
+            res += "."
+        elif c in ".[](){}|\\":
+            res += "\\" + c
+        else:
+            res += c
     return res
 
 
-- 
2.43.0


From 6789c2038ca938e9ecc29b52826715b4b9612e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:34 +0000
Subject: [PATCH 096/131] fix: find() and find_all() do not disturb iterations
 over children

---
 src/uvm/base/uvm_root.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 744a856..287764e 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -480,16 +480,9 @@ class UVMRoot(UVMComponent):
             comps:
             comp:
         """
-        child_comp = None
-
-        if comp.has_first_child():
-            child_comp = comp.get_first_child()
-            while True:
-                self.m_find_all_recurse(comp_match, comps, child_comp)
-                if not comp.has_next_child():
-                    break
-                else:
-                    child_comp = comp.get_next_child()
+        # an iteration of the user over the children goes on afterwards
+        for child_comp in list(comp.m_children_ordered):
+            self.m_find_all_recurse(comp_match, comps, child_comp)
         if uvm_is_match(comp_match, comp.get_full_name()) and comp.get_name() != "":
             comps.append(comp)
 
-- 
2.43.0


From 390327b8fbdb53c8b8cb8f71002c25f92ece1d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 097/131] fix: printing components does not disturb iterations
 over children

---
 src/uvm/base/uvm_printer.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/uvm/base/uvm_printer.py b/src/uvm/base/uvm_printer.py
index bc3d587..0ac764f 100644
--- a/src/uvm/base/uvm_printer.py
+++ b/src/uvm/base/uvm_printer.py
@@ -244,16 +244,11 @@ class UVMPrinter():
                 #if($cast(comp, value)) begin
                 comp = value
                 name = ""
-                if hasattr(comp, "has_first_child"):
-                    if comp.has_first_child():
-                        child_comp = comp.get_first_child()
-                        ok = True
-                        while ok is True:
-                            if child_comp.print_enabled:
-                                self.print_object("", child_comp)
-                            ok = comp.has_next_child()
-                            if ok is True:
-                                child_comp = comp.get_next_child()
+                if hasattr(comp, "m_children_ordered"):
+                    # an iteration of the user over the children goes on afterwards
+                    for child_comp in list(comp.m_children_ordered):
+                        if child_comp.print_enabled:
+                            self.print_object("", child_comp)
 
                 # print members of object
                 value.sprint(self)
-- 
2.43.0


From 4695194f308fb59a9617d6a81c8c1757e108964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 098/131] fix: links between recorded transactions are
 established

---
 src/uvm/base/uvm_links.py       | 26 +++++++++-----------------
 src/uvm/base/uvm_tr_database.py | 22 ++++++++++------------
 src/uvm/base/uvm_transaction.py |  7 +++----
 3 files changed, 22 insertions(+), 33 deletions(-)

diff --git a/src/uvm/base/uvm_links.py b/src/uvm/base/uvm_links.py
index 11eb197..c22c8a7 100644
--- a/src/uvm/base/uvm_links.py
+++ b/src/uvm/base/uvm_links.py
@@ -404,34 +404,26 @@ class UVMRelatedLink(UVMLinkBase):
 
 
     #   // Group: Implementation Callbacks
-    #
+
     #   // Function: do_set_lhs
     #   // Sets the left-hand-side
-    #   //
-    #   virtual def void do_set_lhs(self,UVMObject lhs):
-    #      m_lhs = lhs
-    #   endfunction : do_set_lhs
+    def do_set_lhs(self, lhs) -> None:
+        self.m_lhs = lhs
 
     #   // Function: do_get_lhs
     #   // Retrieves the left-hand-side
-    #   //
-    #   virtual def UVMObject do_get_lhs(self):
-    #      return m_lhs
-    #   endfunction : do_get_lhs
+    def do_get_lhs(self):
+        return self.m_lhs
 
     #   // Function: do_set_rhs
     #   // Sets the right-hand-side
-    #   //
-    #   virtual def void do_set_rhs(self,UVMObject rhs):
-    #      m_rhs = rhs
-    #   endfunction : do_set_rhs
+    def do_set_rhs(self, rhs) -> None:
+        self.m_rhs = rhs
 
     #   // Function: do_get_rhs
     #   // Retrieves the right-hand-side
-    #   //
-    #   virtual def UVMObject do_get_rhs(self):
-    #      return m_rhs
-    #   endfunction : do_get_rhs
+    def do_get_rhs(self):
+        return self.m_rhs
 
 
 uvm_object_utils(UVMRelatedLink)
diff --git a/src/uvm/base/uvm_tr_database.py b/src/uvm/base/uvm_tr_database.py
index 33c532d..937da6c 100644
--- a/src/uvm/base/uvm_tr_database.py
+++ b/src/uvm/base/uvm_tr_database.py
@@ -243,6 +243,7 @@ class UVMTrDatabase(UVMObject):
         if lhs is None:
             uvm_warning("UVM/TR_DB/BAD_LINK",
                 "left hand side '<None>' is not supported in links for 'UVMTrDatabase'")
+            return
 
         if rhs is None:
             uvm_warning("UVM/TR_DB/BAD_LINK",
@@ -250,24 +251,24 @@ class UVMTrDatabase(UVMObject):
             return
 
 
-        if (not sv.cast(s_lhs, lhs, UVMTrStream)) or (not sv.cast(r_lhs, lhs,
+        if (not sv.cast(s_lhs, lhs, UVMTrStream)) and (not sv.cast(r_lhs, lhs,
             UVMRecorder)):
             uvm_warning("UVM/TR_DB/BAD_LINK",
                 sv.sformatf("left hand side of type '%s' not supported in links for 'UVMTrDatabase'",
                 lhs.get_type_name()))
             return
         else:
-            s_lhs = s_lhs[0]
-            r_lhs = r_lhs[0]
+            s_lhs = s_lhs[0] if s_lhs else None
+            r_lhs = r_lhs[0] if r_lhs else None
 
-        if (not sv.cast(s_rhs, rhs, UVMTrStream)) or (not sv.cast(r_rhs, rhs, UVMRecorder)):
+        if (not sv.cast(s_rhs, rhs, UVMTrStream)) and (not sv.cast(r_rhs, rhs, UVMRecorder)):
             uvm_warning("UVM/TR_DB/BAD_LINK",
                 sv.sformatf("right hand side of type '%s' not supported in links for 'uvm_record_datbasae'",
                 rhs.get_type_name()))
             return
         else:
-            s_rhs = s_rhs[0]
-            r_rhs = r_rhs[0]
+            s_rhs = s_rhs[0] if s_rhs else None
+            r_rhs = r_rhs[0] if r_rhs else None
 
         if r_lhs is not None:
             s_lhs = r_lhs.get_stream()
@@ -431,14 +432,11 @@ class UVMTextTrDatabase(UVMTrDatabase):
         lhs = link.get_lhs()
         rhs = link.get_rhs()
 
-        sv.cast(cast_r_lhs, lhs, UVMRecorder)
-        sv.cast(cast_r_rhs, rhs, UVMRecorder)
-        r_lhs = cast_r_lhs[0]
-        r_rhs = cast_r_rhs[0]
-
-        if (r_lhs is None or r_rhs is None):
+        if not (sv.cast(cast_r_lhs, lhs, UVMRecorder) and sv.cast(cast_r_rhs, rhs, UVMRecorder)):
             return
         else:
+            r_lhs = cast_r_lhs[0]
+            r_rhs = cast_r_rhs[0]
             pc_link = []  # uvm_parent_child_link
             re_link = []  # uvm_related_link
             if sv.cast(pc_link, link, UVMParentChildLink):
diff --git a/src/uvm/base/uvm_transaction.py b/src/uvm/base/uvm_transaction.py
index 55d6c20..8b75ba0 100644
--- a/src/uvm/base/uvm_transaction.py
+++ b/src/uvm/base/uvm_transaction.py
@@ -23,6 +23,7 @@
 
 from .sv import sv
 from .uvm_recorder import UVMRecorder
+from .uvm_links import UVMParentChildLink
 from .uvm_object import UVMObject
 from .uvm_pool import UVMEventPool
 
@@ -559,10 +560,8 @@ class UVMTransaction(UVMObject):
                         "Begin_End, Link")
 
                 if (self.tr_recorder is not None):
-                    pass
-                    #link = uvm_parent_child_link::get_link(parent_recorder, self.tr_recorder)
-                    # TODO
-                    #db.establish_link(link)
+                    link = UVMParentChildLink.get_link(parent_recorder, self.tr_recorder)
+                    db.establish_link(link)
 
             if (self.tr_recorder is not None):
                 m_begin_tr = self.tr_recorder.get_handle()
-- 
2.43.0


From 868f3a83b0694a0033fe428e23b3120e5b04c0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 099/131] fix: every transaction begun on the main stream is
 recorded

---
 src/uvm/base/uvm_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 0c26219..9285d8b 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2289,7 +2289,7 @@ class UVMComponent(UVMReportObject):
             if (stream_name == "") or (stream_name == "main"):
                 if self.m_main_stream is None:
                     self.m_main_stream = db.open_stream("main", self.get_full_name(), "TVM")
-                    stream = self.m_main_stream
+                stream = self.m_main_stream
             else:
                 stream = self.get_tr_stream(stream_name)
 
-- 
2.43.0


From 965745ce4c3493f370861ab3be434e39da6a0923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 100/131] fix: a closed transaction database can be opened
 again

---
 src/uvm/base/uvm_tr_database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_tr_database.py b/src/uvm/base/uvm_tr_database.py
index 937da6c..33b2373 100644
--- a/src/uvm/base/uvm_tr_database.py
+++ b/src/uvm/base/uvm_tr_database.py
@@ -111,7 +111,7 @@ class UVMTrDatabase(UVMObject):
         """
         if self.m_is_opened:
             if self.do_close_db():
-                self.m_is_opened = 0
+                self.m_is_opened = False
         return self.m_is_opened == 0
 
     def is_open(self):
@@ -394,6 +394,7 @@ class UVMTextTrDatabase(UVMTrDatabase):
             #fork // Needed because $fclose is a task
             sv.fclose(self.m_file)
             #join_none
+            self.m_file = NO_FILE_OPEN
             self.m_filename_dap.unlock()
         return 1
 
-- 
2.43.0


From 32c039ba4a9584cf77ecee240931971fcdd8c7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 101/131] fix: streams of transactions can be closed and freed

---
 src/uvm/base/uvm_tr_stream.py | 221 +++++++++++++++-------------------
 1 file changed, 95 insertions(+), 126 deletions(-)

diff --git a/src/uvm/base/uvm_tr_stream.py b/src/uvm/base/uvm_tr_stream.py
index 938f7f3..c95ea3e 100644
--- a/src/uvm/base/uvm_tr_stream.py
+++ b/src/uvm/base/uvm_tr_stream.py
@@ -101,6 +101,8 @@ class UVMTrStream(UVMObject):
         """
         UVMObject.__init__(self, name)
         self.m_cfg_dap = uvm_set_before_get_dap("cfg_dap")
+        self.m_is_opened = False
+        self.m_is_closed = False
         #   // Variable- m_records
         #   // Active records in the stream (active == open or closed)
         self.m_records = {}  # bit [uvm_recorder]
@@ -147,38 +149,33 @@ class UVMTrStream(UVMObject):
     #   //
     #   // A warning will be asserted if get_scope is called prior to
     #   // the stream being initialized via <do_open>.
-    #   function string get_scope()
-    #      m_uvm_tr_stream_cfg m_cfg
-    #      if (!m_cfg_dap.try_get(m_cfg)) begin
-    #         if (m_warn_null_cfg == 1)
-    #           `uvm_warning("UVM/REC_STR/NO_CFG",
-    #                        $sformatf("attempt to retrieve scope from '%s' before it was set!",
-    #                                  get_name()))
-    #         m_warn_null_cfg = 0
-    #         return ""
-    #      end
-    #      return m_cfg.scope
-    #   endfunction : get_scope
-    #
+    def get_scope(self):
+        m_cfg = []
+        if not self.m_cfg_dap.try_get(m_cfg):
+            if self.m_warn_null_cfg == 1:
+                uvm_warning("UVM/REC_STR/NO_CFG",
+                    sv.sformatf("attempt to retrieve scope from '%s' before it was set!",
+                        self.get_name()))
+            self.m_warn_null_cfg = 0
+            return ""
+        return m_cfg[0].scope
+
     #   // Function: get_stream_type_name
-    #   // Returns a reference to the database which contains this
-    #   // stream.
+    #   // Returns the type name supplied when opening this stream.
     #   //
     #   // A warning will be asserted if get_stream_type_name is called prior to
     #   // the stream being initialized via <do_open>.
-    #   function string get_stream_type_name()
-    #      m_uvm_tr_stream_cfg m_cfg
-    #      if (!m_cfg_dap.try_get(m_cfg)) begin
-    #         if (m_warn_null_cfg == 1)
-    #           `uvm_warning("UVM/REC_STR/NO_CFG",
-    #                        $sformatf("attempt to retrieve STREAM_TYPE_NAME from '%s' before it was set!",
-    #                                  get_name()))
-    #         m_warn_null_cfg = 0
-    #         return ""
-    #      end
-    #      return m_cfg.stream_type_name
-    #   endfunction : get_stream_type_name
-    #
+    def get_stream_type_name(self):
+        m_cfg = []
+        if not self.m_cfg_dap.try_get(m_cfg):
+            if self.m_warn_null_cfg == 1:
+                uvm_warning("UVM/REC_STR/NO_CFG",
+                    sv.sformatf("attempt to retrieve STREAM_TYPE_NAME from '%s' before it was set!",
+                        self.get_name()))
+            self.m_warn_null_cfg = 0
+            return ""
+        return m_cfg[0].stream_type_name
+
     #   // Group: Stream API
     #   //
     #   // Once a stream has been opened via <uvm_tr_database::open_stream>, the user
@@ -190,7 +187,6 @@ class UVMTrStream(UVMObject):
     #   // A ~link~ can be established within the database any time between "Open" and
     #   // "Free", however it is illegal to establish a link after "Freeing" the stream.
     #   //
-    #
 
     #   // Function: close
     #   // Closes this stream.
@@ -200,20 +196,18 @@ class UVMTrStream(UVMObject):
     #   // This method will trigger a <do_close> call, followed by
     #   // <uvm_recorder::close> on all open recorders within the
     #   // stream.
-    #   function void close()
-    #      if (!is_open())
-    #        return
-    #
-    #      do_close()
-    #
-    #      foreach (m_records[idx])
-    #        if (idx.is_open())
-    #          idx.close()
-    #
-    #      m_is_opened = 0
-    #      m_is_closed = 1
-    #   endfunction : close
-    #
+    def close(self):
+        if not self.is_open():
+            return
+
+        self.do_close()
+
+        for recorder in list(self.m_records):
+            if recorder.is_open():
+                recorder.close()
+
+        self.m_is_opened = False
+        self.m_is_closed = True
 
     #   // Function: free
     #   // Frees this stream.
@@ -224,38 +218,29 @@ class UVMTrStream(UVMObject):
     #   //
     #   // This method will trigger a <do_free> call, followed by
     #   // <uvm_recorder::free> on all recorders within the stream.
-    #   function void free()
-    #	   process p
-    #	   string s
-    #      uvm_tr_database db
-    #      if (!is_open() && !is_closed())
-    #        return
-    #
-    #      if (is_open())
-    #        close()
-    #
-    #      do_free()
-    #
-    #      foreach (m_records[idx])
-    #        idx.free()
-    #
-    #      // Clear out internal state
-    #      db = get_db()
-    #      m_is_closed = 0
-    #      p = process::self()
-    #      if(p != None)
-    #      	s = p.get_randstate()
-    #      m_cfg_dap = new("cfg_dap")
-    #      if(p != None)
-    #      	p.set_randstate(s)
-    #      m_warn_null_cfg = 1
-    #      if (m_ids_by_stream.exists(this))
-    #        m_free_id(m_ids_by_stream[this])
-    #
-    #      // Clear out DB state
-    #      if (db != None)
-    #        db.m_free_stream(this)
-    #   endfunction : free
+    def free(self):
+        if not self.is_open() and not self.is_closed():
+            return
+
+        if self.is_open():
+            self.close()
+
+        self.do_free()
+
+        for recorder in list(self.m_records):
+            recorder.free()
+
+        # Clear out internal state
+        db = self.get_db()
+        self.m_is_closed = False
+        self.m_cfg_dap = uvm_set_before_get_dap("cfg_dap")
+        self.m_warn_null_cfg = 1
+        if self in UVMTrStream.m_ids_by_stream:
+            UVMTrStream.m_free_id(UVMTrStream.m_ids_by_stream[self])
+
+        # Clear out DB state
+        if db is not None:
+            db.m_free_stream(self)
 
     def m_do_open(self, db, scope="", stream_type_name=""):
         """
@@ -478,31 +463,22 @@ class UVMTrStream(UVMObject):
     #   // stream with that ~id~ has been freed, then ~None~ is
     #   // returned.
     #   //
-    #   static function UVMTrStream get_stream_from_handle(integer id)
-    #      if (id == 0)
-    #        return None
-    #
-    #      if ($isunknown(id) || !m_streams_by_id.exists(id))
-    #        return None
-    #
-    #      return m_streams_by_id[id]
-    #   endfunction : get_stream_from_handle
-    #
+    @classmethod
+    def get_stream_from_handle(cls, id):
+        if id == 0:
+            return None
+        return UVMTrStream.m_streams_by_id.get(id)
 
     #   // Function- m_free_id
     #   // Frees the id/stream link (memory cleanup)
     #   //
-    #   static function void m_free_id(integer id)
-    #      UVMTrStream stream
-    #      if (!$isunknown(id) && m_streams_by_id.exists(id))
-    #        stream = m_streams_by_id[id]
-    #
-    #      if (stream != None) begin
-    #         m_streams_by_id.delete(id)
-    #         m_ids_by_stream.delete(stream)
-    #      end
-    #   endfunction : m_free_id
-    #
+    @classmethod
+    def m_free_id(cls, id):
+        stream = UVMTrStream.m_streams_by_id.get(id)
+        if stream is not None:
+            del UVMTrStream.m_streams_by_id[id]
+            del UVMTrStream.m_ids_by_stream[stream]
+
     #   // Group: Implementation Agnostic API
     #   //
     #
@@ -530,9 +506,8 @@ class UVMTrStream(UVMObject):
     #   // The ~do_close~ callback can be used to set internal state
     #   // within the stream, as well as providing a location to
     #   // record any closing information.
-    #   protected virtual function void do_close()
-    #   endfunction : do_close
-    #
+    def do_close(self):
+        pass
 
     #   // Function: do_free
     #   // Callback triggered via <free>.
@@ -540,9 +515,8 @@ class UVMTrStream(UVMObject):
     #   // The ~do_free~ callback can be used to release the internal
     #   // state within the stream, as well as providing a location
     #   // to record any "freeing" information.
-    #   protected virtual function void do_free()
-    #   endfunction : do_free
-    #
+    def do_free(self):
+        pass
 
     #   // Function: do_open_recorder
     #   // Marks the beginning of a new record in the stream.
@@ -604,34 +578,29 @@ class UVMTextTrStream(UVMTrStream):
 
     #   // Function: do_close
     #   // Callback triggered via <UVMTrStream::close>.
-    #   protected virtual function void do_close()
-    #      if (m_text_db.open_db())
-    #        $fdisplay(m_text_db.m_file,
-    #                  "  CLOSE_STREAM @%0t {NAME:%s T:%s SCOPE:%s STREAM:%0d}",
-    #                  $time,
-    #                  this.get_name(),
-    #                  this.get_stream_type_name(),
-    #                  this.get_scope(),
-    #                  this.get_handle())
-    #   endfunction : do_close
-    #
+    def do_close(self):
+        if self.m_text_db.open_db():
+            sv.fdisplay(self.m_text_db.m_file,
+                      "  CLOSE_STREAM @%0t {{NAME:%s T:%s SCOPE:%s STREAM:%0d}}",
+                      uvm_sim_time(),
+                      self.get_name(),
+                      self.get_stream_type_name(),
+                      self.get_scope(),
+                      self.get_handle())
 
     #   // Function: do_free
     #   // Callback triggered via <UVMTrStream::free>.
     #   //
-    #   protected virtual function void do_free()
-    #      if (m_text_db.open_db())
-    #        $fdisplay(m_text_db.m_file,
-    #                  "  FREE_STREAM @%0t {NAME:%s T:%s SCOPE:%s STREAM:%0d}",
-    #                  $time,
-    #                  this.get_name(),
-    #                  this.get_stream_type_name(),
-    #                  this.get_scope(),
-    #                  this.get_handle())
-    #      m_text_db = None
-    #      return
-    #   endfunction : do_free
-    #
+    def do_free(self):
+        if self.m_text_db.open_db():
+            sv.fdisplay(self.m_text_db.m_file,
+                      "  FREE_STREAM @%0t {{NAME:%s T:%s SCOPE:%s STREAM:%0d}}",
+                      uvm_sim_time(),
+                      self.get_name(),
+                      self.get_stream_type_name(),
+                      self.get_scope(),
+                      self.get_handle())
+        self.m_text_db = None
 
     def do_open_recorder(self, name, open_time, type_name):
         """
-- 
2.43.0


From a623b9310b5276ca8297b031303caabbca19399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:16 +0000
Subject: [PATCH 102/131] fix: a freed recorder has no handle

---
 src/uvm/base/uvm_recorder.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/uvm/base/uvm_recorder.py b/src/uvm/base/uvm_recorder.py
index 5b25dee..7dfd35e 100644
--- a/src/uvm/base/uvm_recorder.py
+++ b/src/uvm/base/uvm_recorder.py
@@ -204,8 +204,8 @@ class UVMRecorder(UVMObject):
 
         self.do_close(close_time)
 
-        self.m_is_opened = 0
-        self.m_is_closed = 1
+        self.m_is_opened = False
+        self.m_is_closed = True
         self.m_close_time = close_time
 
 
@@ -242,7 +242,7 @@ class UVMRecorder(UVMObject):
         # Clear out internal state
         stream = self.get_stream()
 
-        self.m_is_closed = 0
+        self.m_is_closed = False
         if p is not None:
             s = p.get_randstate()
         self.m_stream_dap = uvm_set_before_get_dap("stream_dap")
@@ -332,7 +332,7 @@ class UVMRecorder(UVMObject):
 
         self.m_stream_dap.set(stream)
         self.m_open_time = open_time
-        self.m_is_opened = 1
+        self.m_is_opened = True
 
         self.do_open(stream, open_time, type_name)
 
@@ -378,7 +378,7 @@ class UVMRecorder(UVMObject):
 
         Returns:
         """
-        if (self.is_open() is False and self.is_closed() is False):
+        if not self.is_open() and not self.is_closed():
             return 0
         else:
             handle = self.get_inst_id()
-- 
2.43.0


From 4bfc8348e3d287505068faca906f2ee63bd0e39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 103/131] fix: regular expressions of argument queries match
 anywhere in an argument

---
 src/uvm/base/uvm_cmdline_processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_cmdline_processor.py b/src/uvm/base/uvm_cmdline_processor.py
index b4b064d..2563db5 100644
--- a/src/uvm/base/uvm_cmdline_processor.py
+++ b/src/uvm/base/uvm_cmdline_processor.py
@@ -255,7 +255,7 @@ def uvm_dpi_regcomp(match):
 
 
 def uvm_dpi_regexec(exp_h, elem):
-    if exp_h.match(elem) is not None:
+    if exp_h.search(elem) is not None:
         return 0
     return 1
 
-- 
2.43.0


From 2a44726141dc695ed0b6b41486b12502fb32886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 104/131] fix: get_plusargs returns the arguments, not their
 first character

---
 src/uvm/base/uvm_cmdline_processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_cmdline_processor.py b/src/uvm/base/uvm_cmdline_processor.py
index 2563db5..6daf08c 100644
--- a/src/uvm/base/uvm_cmdline_processor.py
+++ b/src/uvm/base/uvm_cmdline_processor.py
@@ -526,7 +526,7 @@ class UVMCmdlineProcessor(UVMReportObject):
                 continue
             self.m_argv.append(arg)
             if arg[0] == "+":
-                self.m_plus_argv.append(arg[0])
+                self.m_plus_argv.append(arg)
                 uvm_debug(self, '__init__', "Simple UVM plusarg %s" % (arg))
             sub = arg[1:4]
             sub = sub.upper()
-- 
2.43.0


From c3d354aa704029460cf4869f5d02a55ac45f3848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 105/131] fix: invalid +uvm_set_verbosity settings are reported
 and skipped, valid ones are applied

---
 src/uvm/base/sv.py            | 1 +
 src/uvm/base/uvm_component.py | 6 ++----
 src/uvm/base/uvm_root.py      | 1 +
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index 6cc2926..a9e3a6f 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -80,6 +80,7 @@ def uvm_glob_to_re(_str: str) -> str:
 
 def uvm_split_string(_str, sep: str, split_vals: List[str]) -> List[str]:
     res = _str.split(sep)
+    split_vals.clear()
     for val in res:
         split_vals.append(val)
     return res
diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 9285d8b..2eb7f18 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2368,10 +2368,8 @@ class UVMComponent(UVMReportObject):
             uvm_split_string(values[i], ",", args)
 
             # Warning is already issued in uvm_root, so just don't keep it
-            len_match = len(args) not in [4, 5]
-            setting.verbosity = clp.m_convert_verb(args[2])
-            if UVMComponent.first_m_set_cl_verb and (len_match or setting.verbosity == -1):
-                del values[i]
+            if len(args) not in [4, 5] or clp.m_convert_verb(args[2]) == -1:
+                continue
             else:
                 setting.comp = args[0]
                 setting.id = args[1]
diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 287764e..1e2e9ee 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -540,6 +540,7 @@ class UVMRoot(UVMComponent):
             if len(split_vals) < 4 or len(split_vals) > 5:
                 self.uvm_report_warning("INVLCMDARGS",
                   sv.sformatf(MSG_INVLCMDARGS, set_verbosity_settings[i]), UVM_NONE, "", "")
+                continue
 
             # Invalid verbosity
             if self.clp.m_convert_verb(split_vals[2]) == -1:
-- 
2.43.0


From c27901dd7f4a416306084eea180f3798f3aab3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 106/131] fix: timed +uvm_set_verbosity settings take effect at
 their own times

---
 src/uvm/base/uvm_component.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 2eb7f18..2502fc9 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2409,13 +2409,14 @@ class UVMComponent(UVMReportObject):
             top.find_all(m_time_settings[i].comp, comps)
             duration = m_time_settings[i].offset - last_time
             last_time = m_time_settings[i].offset
-            cocotb.start_soon(self.m_set_comp_settings(i, comps.copy(), duration))
+            await self.m_set_comp_settings(i, comps.copy(), duration)
         #end join_none // fork begin
 
 
     async def m_set_comp_settings(self, i, comps, dur):
         m_time_settings = UVMComponent.m_time_settings
-        await Timer(dur)
+        if dur > 0:
+            await Timer(dur)
         if m_time_settings[i].id == "_ALL_":
             for comp in comps:
                 comp.set_report_verbosity_level(m_time_settings[i].verbosity)
-- 
2.43.0


From f04e9b5939f9d95b99a17a5886a20081f7ab4252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 107/131] fix: +uvm_set_verbosity settings of a phase are
 applied when it starts

---
 src/uvm/base/uvm_component.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 2502fc9..b8557df 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2574,20 +2574,17 @@ class UVMComponent(UVMReportObject):
         Args:
             phase:
         """
-        pass
-        for i in self.m_verbosity_settings:
-            if phase.get_name() == self.m_verbosity_settings[i].phase:
-                if self.m_verbosity_settings[i].offset == 0:
-                    if self.m_verbosity_settings[i].id == "_ALL_":
-                        self.set_report_verbosity_level(self.m_verbosity_settings[i].verbosity)
+        for setting in self.m_verbosity_settings.copy():
+            if phase.get_name() == setting.phase:
+                if setting.offset == 0:
+                    if setting.id == "_ALL_":
+                        self.set_report_verbosity_level(setting.verbosity)
                     else:
-                        self.set_report_id_verbosity(self.m_verbosity_settings[i].id,
-                                self.m_verbosity_settings[i].verbosity)
+                        self.set_report_id_verbosity(setting.id, setting.verbosity)
                 else:
                     #process p = process::self()
                     #string p_rand = p.get_randstate()
                     #fork begin
-                    setting = self.m_verbosity_settings[i]
                     #setting.offset
                     if setting.id == "_ALL_":
                         self.set_report_verbosity_level(setting.verbosity)
@@ -2596,7 +2593,7 @@ class UVMComponent(UVMReportObject):
                     #end join_none
                     #p.set_randstate(p_rand)
                 # Remove after use
-                del self.m_verbosity_settings[i]
+                self.m_verbosity_settings.remove(setting)
 
     def kill(self):
         """
-- 
2.43.0


From 2bf450ef924349b48d26b1995a2f60a5c6bd4d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 108/131] fix: +uvm_set_action/+uvm_set_severity accept
 UVM_INFO and UVM_NO_ACTION and refuse unknown names

---
 src/uvm/base/uvm_component.py | 7 ++++---
 src/uvm/base/uvm_globals.py   | 3 +++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index b8557df..35bbdf7 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2446,12 +2446,13 @@ class UVMComponent(UVMReportObject):
 
                 if len(args) != 4:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN1, len(args), values[idx]))
+                    continue
 
-                if((args[2] != "_ALL_") and not uvm_string_to_severity(args[2], sev)):
+                if args[2] != "_ALL_" and uvm_string_to_severity(args[2], sev) == -1:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN2, args[2], values[idx]))
                     continue
 
-                if not uvm_string_to_action(args[3], action):
+                if uvm_string_to_action(args[3], action) == -1:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN3, args[3], values[idx]))
                     continue
                 t.args = args
@@ -2507,7 +2508,7 @@ class UVMComponent(UVMReportObject):
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN4, len(args), values[idx]))
                     continue
 
-                if args[2] != "_ALL_" and not uvm_string_to_severity(args[2], orig_sev):
+                if args[2] != "_ALL_" and uvm_string_to_severity(args[2], orig_sev) == -1:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN5, args[2], values[idx]))
                     continue
 
diff --git a/src/uvm/base/uvm_globals.py b/src/uvm/base/uvm_globals.py
index 3087f05..e3cca9d 100644
--- a/src/uvm/base/uvm_globals.py
+++ b/src/uvm/base/uvm_globals.py
@@ -230,6 +230,9 @@ def uvm_string_to_action(action_str, action):
             action |= UVM_STOP
         if actions[i] == "UVM_RM_RECORD":
             action |= UVM_RM_RECORD
+        if actions[i] not in ("UVM_NO_ACTION", "UVM_DISPLAY", "UVM_LOG", "UVM_COUNT",
+                "UVM_EXIT", "UVM_CALL_HOOK", "UVM_STOP", "UVM_RM_RECORD"):
+            return -1
     return action
 
 """
-- 
2.43.0


From 49548d3ad387f9dc7618c1850f584692691b0989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 109/131] fix: +UVM_TIMEOUT sets the time given

---
 src/uvm/base/uvm_root.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 1e2e9ee..8803024 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -578,9 +578,11 @@ class UVMRoot(UVMComponent):
                 sv.sformatf("'+UVM_TIMEOUT=%s' provided on the command line is being applied.",
                     timeout), UVM_NONE)
 
-            matches = sv.sscanf(timeout,"%d,%s", timeout_int, override_spec)
-            if len(matches) == 2:
-                override_spec, timeout_int = matches
+            split_timeout = []
+            uvm_split_string(timeout, ",", split_timeout)
+            timeout_int = int(split_timeout[0])
+            if len(split_timeout) > 1:
+                override_spec = split_timeout[1]
             if override_spec == "YES":
                 self.set_timeout(timeout_int, 1)
             elif override_spec == "NO":
-- 
2.43.0


From ef864166c106a710c40f68cb846240dbf65b5112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 110/131] fix: unknown words in +UVM_VERBOSITY and
 +UVM_MAX_QUIT_COUNT fall back to the defaults

---
 src/uvm/base/uvm_root.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 8803024..23ea533 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -698,6 +698,8 @@ class UVMRoot(UVMComponent):
                     srvr.set_max_quit_count(max_quit_int, 1)
                 elif split_max_quit[1] == "NO":
                     srvr.set_max_quit_count(max_quit_int, 0)
+                else:
+                    srvr.set_max_quit_count(max_quit_int, 1)
             else:
                 srvr.set_max_quit_count(max_quit_int, 1)
 
@@ -790,8 +792,6 @@ class UVMRoot(UVMComponent):
 
         # Retrieve the verbosities provided on the command line.
         verb_count = self.clp.get_arg_values("+UVM_VERBOSITY=", verb_settings)
-        if verb_count:
-            verb_settings.append(verb_string)
 
         # If none provided, provide message about the default being used.
         if verb_count == 0:
@@ -841,7 +841,10 @@ class UVMRoot(UVMComponent):
             elif verb_string == "DEBUG":
                 verbosity = UVM_DEBUG
             else:
-                verbosity = int(verb_string)
+                try:
+                    verbosity = int(verb_string)
+                except ValueError:
+                    verbosity = 0
                 if verbosity > 0:
                     self.uvm_report_info("NSTVERB",
                             sv.sformatf(NON_STD_VERB, verbosity), UVM_NONE)
-- 
2.43.0


From 278f7c644c07f2a923a292765a75953367b310cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:48 +0000
Subject: [PATCH 111/131] fix: factory overrides given on the command line are
 applied

---
 src/uvm/base/uvm_factory.py | 102 ++++++++++++++++--------------------
 src/uvm/base/uvm_root.py    |  57 +++++++++-----------
 2 files changed, 70 insertions(+), 89 deletions(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 4b02603..df54815 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -408,63 +408,51 @@ class UVMDefaultFactory(UVMFactory):
         self.m_inst_override_queues[original_type].push_back(override)
 
 
-    # set_inst_override_by_name
-    # TODO
-    #function void uvm_default_factory::set_inst_override_by_name (
-    # string original_type_name,
-    #                                                      string override_type_name,
-    #                                                      string full_inst_path)
-    #
-    #  uvm_factory_override override
-    #  uvm_object_wrapper original_type
-    #  uvm_object_wrapper override_type
-    #
-    #  if(self.m_type_names.exists(original_type_name))
-    #    original_type = self.m_type_names[original_type_name]
-    #
-    #  if(self.m_type_names.exists(override_type_name))
-    #    override_type = self.m_type_names[override_type_name]
-    #
-    #  // check that type is registered with the factory
-    #  if (override_type  is None):
-    #    uvm_report_error("TYPNTF", {"Cannot register instance override with type name '",
-    #    original_type_name,"' and instance path '",full_inst_path,"' because the type it's supposed ",
-    #    "to produce, '",override_type_name,"', is not registered with the factory."}, UVM_NONE)
-    #    return
-    #  end
-    #
-    #  if (original_type  is None)
-    #      m_lookup_strs[original_type_name] = 1
-    #
-    #  override = new(.full_inst_path(full_inst_path),
-    #                 .orig_type(original_type),
-    #                 .orig_type_name(original_type_name),
-    #                 .ovrd_type(override_type))
-    #
-    #  if(original_type != null):
-    #    if (check_inst_override_exists(original_type,override_type,full_inst_path))
-    #      return
-    #    if(!m_inst_override_queues.exists(original_type))
-    #      m_inst_override_queues[original_type] = new
-    #    m_inst_override_queues[original_type].queue.push_back(override)
-    #  end
-    #  else:
-    #    if(m_has_wildcard(original_type_name)):
-    #       foreach(self.m_type_names[i]):
-    #         if(uvm_is_match(original_type_name,i)):
-    #           this.set_inst_override_by_name(i, override_type_name, full_inst_path)
-    #         end
-    #       end
-    #       m_wildcard_inst_overrides.push_back(override)
-    #    end
-    #    else:
-    #      if(!self.m_inst_override_name_queues.exists(original_type_name))
-    #        self.m_inst_override_name_queues[original_type_name] = new
-    #      self.m_inst_override_name_queues[original_type_name].queue.push_back(override)
-    #    end
-    #  end
-    #
-    #endfunction
+    def set_inst_override_by_name(self, original_type_name, override_type_name,
+            full_inst_path):
+        """
+        Same as `set_inst_override_by_type`, but the types are given by their names.
+
+        Args:
+            original_type_name (str): May contain wildcards.
+            override_type_name (str): Name of a registered type.
+            full_inst_path (str): Instances for which the override is used.
+        """
+        original_type = None
+        override_type = None
+        if self.m_type_names.exists(original_type_name):
+            original_type = self.m_type_names.get(original_type_name)
+        if self.m_type_names.exists(override_type_name):
+            override_type = self.m_type_names.get(override_type_name)
+
+        # check that type is registered with the factory
+        if override_type is None:
+            uvm_report_error("TYPNTF", ("Cannot register instance override with type name '"
+                + original_type_name + "' and instance path '" + full_inst_path
+                + "' because the type it's supposed to produce, '"
+                + override_type_name + "', is not registered with the factory."), UVM_NONE)
+            return
+
+        override = UVMFactoryOverride(full_inst_path=full_inst_path,
+                orig_type=original_type,
+                orig_type_name=original_type_name,
+                ovrd_type=override_type)
+
+        if original_type is not None:
+            if self.check_inst_override_exists(original_type, override_type, full_inst_path):
+                return
+            if original_type not in self.m_inst_override_queues:
+                self.m_inst_override_queues[original_type] = UVMQueue()
+            self.m_inst_override_queues[original_type].push_back(override)
+        elif m_has_wildcard(original_type_name):
+            for type_name in list(self.m_type_names.key_list()):
+                if uvm_is_match(original_type_name, type_name):
+                    self.set_inst_override_by_name(type_name, override_type_name, full_inst_path)
+            self.m_wildcard_inst_overrides.push_back(override)
+        else:
+            if original_type_name not in self.m_inst_override_name_queues:
+                self.m_inst_override_name_queues[original_type_name] = UVMQueue()
+            self.m_inst_override_name_queues[original_type_name].push_back(override)
 
     def create_object_by_name(self, requested_type_name, parent_inst_path="",
               name=""):
diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 23ea533..698519a 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -639,7 +639,31 @@ class UVMRoot(UVMComponent):
         Args:
             ovr:
         """
-        pass  # TODO
+        from .uvm_coreservice import UVMCoreService
+        split_val = []
+        replace = True
+        factory = UVMCoreService.get().get_factory()
+
+        uvm_split_string(ovr, ",", split_val)
+
+        if len(split_val) > 3 or len(split_val) < 2:
+            self.uvm_report_error("UVM_CMDLINE_PROC", "Invalid setting for +uvm_set_type_override="
+                + ovr
+                + ", setting must specify <requested_type>,<override_type>[,<replace>]", UVM_NONE)
+            return
+
+        # Replace arg is optional. If set, must be 0 or 1
+        if len(split_val) == 3:
+            if split_val[2] == "0":
+                replace = False
+            elif split_val[2] != "1":
+                self.uvm_report_error("UVM_CMDLINE_PROC", "Invalid replace arg for +uvm_set_type_override="
+                    + ovr + ", value must be 0 or 1", UVM_NONE)
+                return
+
+        self.uvm_report_info("UVM_CMDLINE_PROC",
+            "Applying type override from the command line: +uvm_set_type_override=" + ovr, UVM_NONE)
+        factory.set_type_override_by_name(split_val[0], split_val[1], replace)
 
 
     def m_do_config_settings(self):
@@ -956,37 +980,6 @@ search interface. See `UVMRoot` for more information.
 uvm_top: UVMRoot = UVMRoot.get()
 
 
-#// m_process_type_override
-#// -----------------------
-#
-#function void uvm_root::m_process_type_override(string ovr)
-#  string split_val[$]
-#  int replace=1
-#  uvm_coreservice_t cs = uvm_coreservice_t::get();
-#  uvm_factory factory=cs.get_factory()
-#
-#  uvm_split_string(ovr, ",", split_val)
-#
-#  if(split_val.size() > 3 || split_val.size() < 2):
-#    uvm_report_error("UVM_CMDLINE_PROC", {"Invalid setting for +uvm_set_type_override=", ovr,
-#      ", setting must specify <requested_type>,<override_type>[,<replace>]"}, UVM_NONE)
-#    return
-#  end
-#
-#  // Replace arg is optional. If set, must be 0 or 1
-#  if(split_val.size() == 3):
-#    if(split_val[2]=="0") replace =  0
-#    else if (split_val[2] == "1") replace = 1
-#    else begin
-#      uvm_report_error("UVM_CMDLINE_PROC", {"Invalid replace arg for +uvm_set_type_override=", ovr ," value must be 0 or 1"}, UVM_NONE)
-#      return
-#    end
-#  end
-#
-#  self.uvm_report_info("UVM_CMDLINE_PROC", {"Applying type override from the command line: +uvm_set_type_override=", ovr}, UVM_NONE)
-#  factory.set_type_override_by_name(split_val[0], split_val[1], replace)
-#endfunction
-
 #// m_process_default_sequence
 #// ----------------
 #
-- 
2.43.0


From 1f07c9301e6103f7d7fcc6390da9f2bfadfda8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 112/131] fix: UVM arguments begin with + or -

---
 src/uvm/base/uvm_cmdline_processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_cmdline_processor.py b/src/uvm/base/uvm_cmdline_processor.py
index 6daf08c..2e840a4 100644
--- a/src/uvm/base/uvm_cmdline_processor.py
+++ b/src/uvm/base/uvm_cmdline_processor.py
@@ -530,7 +530,7 @@ class UVMCmdlineProcessor(UVMReportObject):
                 uvm_debug(self, '__init__', "Simple UVM plusarg %s" % (arg))
             sub = arg[1:4]
             sub = sub.upper()
-            if sub == "UVM":
+            if sub == "UVM" and arg[0] in "+-":
                 self.m_uvm_argv.append(arg)
                 uvm_debug(self, '__init__', "Found UVM plusarg %s" % (arg))
 
-- 
2.43.0


From fbe4f53b85edc51dc408d65863a030458d7fa1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 113/131] fix: +UVM_PHASE_TRACE traces the start of phases

---
 src/uvm/base/uvm_phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index a4a0359..7f656fa 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -1299,7 +1299,7 @@ class UVMPhase(UVMObject):
             await self._wait_phases_synced()
 
         self.m_run_count += 1
-        if UVMPhase.m_phase_trace is True:
+        if UVMPhase.m_phase_trace:
             UVM_PH_TRACE("PH/TRC/STRT","Starting phase",self,UVM_LOW)
 
         # If we're a schedule or domain, then "fake" execution
-- 
2.43.0


From e3c5cb9094637cc4a543451349d191846fb97100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:17 +0000
Subject: [PATCH 114/131] fix: +UVM_MAX_QUIT_COUNT=n,NO cannot be overridden

---
 src/uvm/base/uvm_report_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_report_server.py b/src/uvm/base/uvm_report_server.py
index 214693e..d634a55 100644
--- a/src/uvm/base/uvm_report_server.py
+++ b/src/uvm/base/uvm_report_server.py
@@ -191,7 +191,7 @@ class UVMReportServer(UVMObject):
     # before a UVM_EXIT action is taken. The default is 0, which specifies
     # no maximum.
     def set_max_quit_count(self, count, overridable=True):
-        if self.max_quit_overridable is False:
+        if not self.max_quit_overridable:
             uvm_report_info("NOMAXQUITOVR",
                 "The max quit count setting of {} is not overridable to {} due to a previous setting."
                 .format(self.m_max_quit_count, count), UVM_NONE)
-- 
2.43.0


From 95341c29f9e1602b1d2891034ba614f788a8c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:41 +0000
Subject: [PATCH 115/131] fix: a run with +UVM_PHASE_TRACE does not crash

---
 src/uvm/base/uvm_phase.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 7f656fa..54cf6ec 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -513,9 +513,9 @@ class UVMPhase(UVMObject):
 
         if UVMPhase.m_phase_trace:
             typ = phase.get_phase_type()
-            uvm_report_info("PH/TRC/ADD_PH", (self.get_name() + " (" + self.m_phase_type.name()
+            uvm_report_info("PH/TRC/ADD_PH", (self.get_name() + " (" + str(self.m_phase_type)
                 + ") ADD_PHASE: phase=" + phase.get_full_name() + " ("
-                + typ.name() + ", inst_id=" + "{}".format(phase.get_inst_id())
+                + str(typ) + ", inst_id=" + "{}".format(phase.get_inst_id())
                 + ")"), UVM_DEBUG)
             #" with_phase=",   (with_phase == null)   ? "null" : with_phase.get_name(),
             #" after_phase=",  (after_phase == null)  ? "null" : after_phase.get_name(),
@@ -1167,7 +1167,7 @@ class UVMPhase(UVMObject):
 
             if UVMPhase.m_phase_trace:
                 s = sv.sformatf("Waiting for phase '%s' (%0d) to be READY_TO_END. Current state is %s",
-                    sibling.get_name(),sibling.get_inst_id(),sibling.m_state.name())
+                    sibling.get_name(),sibling.get_inst_id(),ph2str(sibling.m_state))
                 UVM_PH_TRACE("PH/TRC/WAIT_PRED_OF_SUCC",s,self,UVM_HIGH)
 
             await sibling.wait_for_state(UVM_PHASE_READY_TO_END, UVM_GTE)
-- 
2.43.0


From 762f516f4dfacdbffed95ab2623e4b7d4d437046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:07 +0000
Subject: [PATCH 116/131] fix: a nonblocking initiator socket accepts an
 implementation

---
 src/uvm/tlm2/uvm_tlm2_sockets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/tlm2/uvm_tlm2_sockets.py b/src/uvm/tlm2/uvm_tlm2_sockets.py
index cc2a03a..d5bb16d 100644
--- a/src/uvm/tlm2/uvm_tlm2_sockets.py
+++ b/src/uvm/tlm2/uvm_tlm2_sockets.py
@@ -157,7 +157,7 @@ class UVMTLMNbInitiatorSocket(UVMTLMNbInitiatorSocketBase):
 
         if (imp is None):
             imp = parent
-        else:
+        if (imp is None):
             uvm_error("UVM/TLM2/NOIMP", cat("nb_initiator socket ", name,
                                      " has no implementation"))
         self.bw_imp = UVMTLMNbTransportBwImp("bw_imp", imp)
-- 
2.43.0


From 6a1ab167a507524709d54f376d4e9ec50fe17efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:11 +0000
Subject: [PATCH 117/131] fix: passthrough sockets connect the backward path
 and report bad providers

---
 src/uvm/tlm2/uvm_tlm2_sockets.py | 43 +++++++++++++++++---------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/uvm/tlm2/uvm_tlm2_sockets.py b/src/uvm/tlm2/uvm_tlm2_sockets.py
index d5bb16d..becf655 100644
--- a/src/uvm/tlm2/uvm_tlm2_sockets.py
+++ b/src/uvm/tlm2/uvm_tlm2_sockets.py
@@ -257,11 +257,9 @@ class UVMTLMBPassthroughInitiatorSocket(UVMTLMBPassthroughInitiatorSocketBase):
         super().connect(provider)
 
         if not isinstance(provider, valid_providers):
-            # TODO:
-            # uvm_error_context(get_type_name(),
-            #    "type mismatch in connect -- connection cannot be completed",
-            #    self.get_comp())
-            pass
+            uvm_error_context(self.get_type_name(),
+                "type mismatch in connect -- connection cannot be completed",
+                self.get_comp())
 
 #//----------------------------------------------------------------------
 #// Class: uvm_tlm_b_passthrough_target_socket
@@ -283,11 +281,9 @@ class UVMTLMBPassthroughTargetSocket(UVMTLMBPassthroughTargetSocketBase):
         super().connect(provider)
 
         if not isinstance(provider, valid_providers):
-            # TODO:
-            # uvm_error_context(self.get_type_name(),
-            #    "type mismatch in connect -- connection cannot be completed",
-            #    self.get_comp())
-            pass
+            uvm_error_context(self.get_type_name(),
+                "type mismatch in connect -- connection cannot be completed",
+                self.get_comp())
 
 
 #//----------------------------------------------------------------------
@@ -312,11 +308,16 @@ class UVMTLMNbPassthroughInitiatorSocket(UVMTLMNbPassthroughInitiatorSocketBase)
         super().connect(provider)
 
         if not isinstance(provider, valid_providers):
-            # TODO:
-            # uvm_error_context(self.get_type_name(),
-            #     "type mismatch in connect -- connection cannot be completed",
-            #     self.get_comp())
-            pass
+            uvm_error_context(self.get_type_name(),
+                "type mismatch in connect -- connection cannot be completed",
+                self.get_comp())
+            return
+
+        # Connect the backward path in the opposite direction
+        if isinstance(provider, UVMTLMNbPassthroughInitiatorSocketBase):
+            provider.bw_export.connect(self.bw_export)
+        else:
+            provider.bw_port.connect(self.bw_export)
 
 #//----------------------------------------------------------------------
 #// Class -- NODOCS -- uvm_tlm_nb_passthrough_target_socket
@@ -339,8 +340,10 @@ class UVMTLMNbPassthroughTargetSocket(UVMTLMNbPassthroughTargetSocketBase):
         super().connect(provider)
 
         if not isinstance(provider, valid_providers):
-            # TODO:
-            # uvm_error_context(self.get_type_name(),
-            #     "type mismatch in connect -- connection cannot be completed",
-            #     self.get_comp())
-            pass
+            uvm_error_context(self.get_type_name(),
+                "type mismatch in connect -- connection cannot be completed",
+                self.get_comp())
+            return
+
+        # Connect the backward path in the opposite direction
+        provider.bw_port.connect(self.bw_port)
-- 
2.43.0


From be748deb4aecda11a2656bba7de2fd8d4f12863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:45 +0000
Subject: [PATCH 118/131] fix: memory peek and poke wait for user-defined
 backdoors

---
 src/uvm/reg/sequences/uvm_mem_access_seq.py |  4 ++--
 src/uvm/reg/uvm_mem.py                      | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_access_seq.py b/src/uvm/reg/sequences/uvm_mem_access_seq.py
index 4dbaa0c..c2b28bb 100644
--- a/src/uvm/reg/sequences/uvm_mem_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_access_seq.py
@@ -141,7 +141,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 val = []
                 status = []
                 #yield mem.peek(status, k, val)
-                mem.peek(status, k, val)
+                await mem.peek(status, k, val)
                 status = status[0]
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
@@ -158,7 +158,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 exp = ~exp & ((1 << n_bits)-1)
                 status = []
                 #yield mem.poke(status, k, exp)
-                mem.poke(status, k, exp)
+                await mem.poke(status, k, exp)
                 status = status[0]
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 9014766..585ad70 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -798,7 +798,7 @@ class UVMMem(UVMObject):
     #                            input  uvm_object         extension = None,
     #                            input  string             fname = "",
     #                            input  int                lineno = 0)
-    def poke(self, status,
+    async def poke(self, status,
             offset, value, kind="", parent=None, extension=None, fname="", lineno=0):
         uvm_check_output_args([status])
         bkdr = self.get_backdoor()  # uvm_reg_backdoor
@@ -818,7 +818,7 @@ class UVMMem(UVMObject):
         rw.element      = self
         rw.path         = UVM_BACKDOOR
         rw.element_kind = UVM_MEM
-        rw.kind         = UVM_READ
+        rw.kind         = UVM_WRITE
         rw.offset       = offset
         rw.value[0]     = value & ((1 << self.m_n_bits)-1)
         rw.bd_kind      = kind
@@ -828,7 +828,7 @@ class UVMMem(UVMObject):
         rw.lineno       = lineno
 
         if bkdr is not None:
-            bkdr.write(rw)
+            await bkdr.write(rw)
         else:
             self.backdoor_write(rw)
 
@@ -857,7 +857,7 @@ class UVMMem(UVMObject):
     #                            input  uvm_object         extension = None,
     #                            input  string             fname = "",
     #                            input  int                lineno = 0)
-    def peek(self, status, offset, value, kind="", parent=None, extension=None, fname="",
+    async def peek(self, status, offset, value, kind="", parent=None, extension=None, fname="",
             lineno=0):
         uvm_check_output_args([status, value])
         bkdr = self.get_backdoor()  # uvm_reg_backdoor
@@ -886,7 +886,7 @@ class UVMMem(UVMObject):
         rw.lineno       = lineno
 
         if bkdr is not None:
-            bkdr.read(rw)
+            await bkdr.read(rw)
         else:
             self.backdoor_read(rw)
 
-- 
2.43.0


From 2a72937dc3da76498acbdc59e6ce1074f8c6f1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:45 +0000
Subject: [PATCH 119/131] fix: failed accesses are reported by the access and
 walk sequences instead of crashing them

---
 src/uvm/reg/sequences/uvm_mem_access_seq.py | 6 +++---
 src/uvm/reg/sequences/uvm_mem_walk_seq.py   | 2 +-
 src/uvm/reg/sequences/uvm_reg_access_seq.py | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_access_seq.py b/src/uvm/reg/sequences/uvm_mem_access_seq.py
index c2b28bb..b2e5070 100644
--- a/src/uvm/reg/sequences/uvm_mem_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_access_seq.py
@@ -125,7 +125,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                     if status != UVM_IS_OK:
                        uvm_error("UVMMemAccessSeq", sv.sformatf(
                            "Status was %s when reading \"%s[%0d]\" through backdoor.",
-                           status.name(), mem.get_full_name(), k))
+                           UVM_STATUS_NAMES[status], mem.get_full_name(), k))
                 else:
                     exp = val
 
@@ -135,7 +135,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
                         "Status was %s when writing '%s[%0d]' through map '%s'.",
-                        status.name(), mem.get_full_name(), k, maps[j].get_full_name()))
+                        UVM_STATUS_NAMES[status], mem.get_full_name(), k, maps[j].get_full_name()))
                 await Timer(1, "NS")
 
                 val = []
@@ -173,7 +173,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
                         "Status was %s when reading \"%s[%0d]\" through map \"%s\".",
-                        status.name(), mem.get_full_name(), k, maps[j].get_full_name()))
+                        UVM_STATUS_NAMES[status], mem.get_full_name(), k, maps[j].get_full_name()))
                 else:
                     if mode == "WO":
                         if val != 0:
diff --git a/src/uvm/reg/sequences/uvm_mem_walk_seq.py b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
index a4d6bc3..8b11521 100644
--- a/src/uvm/reg/sequences/uvm_mem_walk_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
@@ -140,7 +140,7 @@ class UVMMemSingleWalkSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemWalkSeq", sv.sformatf(
                         "Status was %s when writing \"%s[%0d]\" through map \"%s\".",
-                        status.name(), mem.get_full_name(), k, maps[j].get_full_name()))
+                        UVM_STATUS_NAMES[status], mem.get_full_name(), k, maps[j].get_full_name()))
 
                 if k > 0:
                     status = []
diff --git a/src/uvm/reg/sequences/uvm_reg_access_seq.py b/src/uvm/reg/sequences/uvm_reg_access_seq.py
index e85aa77..21b94e0 100644
--- a/src/uvm/reg/sequences/uvm_reg_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_reg_access_seq.py
@@ -139,7 +139,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             status = status[0]
 
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + UVM_STATUS_NAMES[status]
                    + "' when writing '" + rg.get_full_name()
                    + "' through map '" + maps[j].get_full_name() + "'"))
             await Timer(1, "NS")  # tpoikela: Original UVM has #1
@@ -148,7 +148,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             await rg.mirror(status, UVM_CHECK, UVM_BACKDOOR, UVMRegMap.backdoor(), self)
             status = status[0]
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + UVM_STATUS_NAMES[status]
                                     + "' when reading reset value of register '"
                                     + rg.get_full_name() +  "' through backdoor"))
 
@@ -156,7 +156,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             await rg.write(status, v, UVM_BACKDOOR, maps[j], self)
             status = status[0]
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + UVM_STATUS_NAMES[status]
                    + "' when writing '" + rg.get_full_name()
                    + "' through backdoor"))
 
@@ -164,7 +164,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             await rg.mirror(status, UVM_CHECK, UVM_FRONTDOOR, maps[j], self)
             status = status[0]
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + UVM_STATUS_NAMES[status]
                    + "' when reading reset value of register '"
                    + rg.get_full_name() + "' through map '"
                    + maps[j].get_full_name() + "'"))
-- 
2.43.0


From 4e87f071d4eb7053f8a9d9bd8439ced611989abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:10 +0000
Subject: [PATCH 120/131] fix: memory access sequence can test wide and
 read-only memories

---
 src/uvm/reg/sequences/uvm_mem_access_seq.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_access_seq.py b/src/uvm/reg/sequences/uvm_mem_access_seq.py
index b2e5070..2d03cd5 100644
--- a/src/uvm/reg/sequences/uvm_mem_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_access_seq.py
@@ -115,13 +115,16 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
             # - Write complement of random value via back door
             # - Read via front door and expect inverted random value
             for k in range(mem.get_size()):
-                val = sv.random() & (1 << n_bits) - 1  # cast to 'uvm_reg_data_t' removed
+                val = sv.random()
                 if n_bits > 32:
                     val = (val << 32) | sv.random()
+                val &= (1 << n_bits) - 1
                 if mode == "RO":
                     status = []
-                    await mem.peek(status, k, exp)
+                    out = []
+                    await mem.peek(status, k, out)
                     status = status[0]
+                    exp = out[0]
                     if status != UVM_IS_OK:
                        uvm_error("UVMMemAccessSeq", sv.sformatf(
                            "Status was %s when reading \"%s[%0d]\" through backdoor.",
-- 
2.43.0


From e82e6f1c582817465ee2c480c734d4272836af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:10 +0000
Subject: [PATCH 121/131] fix: hardware reset sequence tests blocks with
 submaps and their sub-blocks

---
 src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py b/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py
index 35e237c..3e343f8 100644
--- a/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py
+++ b/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py
@@ -29,7 +29,8 @@ from ...base.uvm_resource_db import UVMResourceDb
 from ...base.sv import sv
 from ...base import UVM_LOW, UVM_HIGH
 from ...base.uvm_globals import uvm_zero_delay
-from ..uvm_reg_model import UVM_CHECK, UVM_FRONTDOOR, UVM_IS_OK, uvm_status_e
+from ..uvm_reg_model import (UVM_CHECK, UVM_FRONTDOOR, UVM_IS_OK, UVM_NO_HIER,
+    uvm_status_e)
 
 
 class UVMRegHWResetSeq(UVMRegSequence):
@@ -97,7 +98,6 @@ class UVMRegHWResetSeq(UVMRegSequence):
     
     async def do_block(self, blk):
         maps = []  # uvm_reg_map maps[$]
-        sub_maps = []  # uvm_reg_map sub_maps[$]
         no_rr1 = UVMResourceDb.get_by_name("REG::" + blk.get_full_name(), "NO_REG_TESTS", 0)
         no_rr2 = UVMResourceDb.get_by_name("REG::" + blk.get_full_name(), "NO_REG_HW_RESET_TEST", 0)
 
@@ -109,16 +109,13 @@ class UVMRegHWResetSeq(UVMRegSequence):
         # Iterate over all maps defined for the RegModel block
         for d in range(len(maps)):
             regs = []  # uvm_reg[]
-            maps[d].get_submaps(sub_maps)
-            if len(sub_maps) != 0:
-                continue
 
             # Iterate over all registers in the map, checking accesses
             # Note: if map were in inner loop, could test simulataneous
             # access to same reg via different bus interfaces
 
             regs = []
-            maps[d].get_registers(regs)
+            maps[d].get_registers(regs, UVM_NO_HIER)
 
             for i in range(len(regs)):
                 status = 0
@@ -143,10 +140,10 @@ class UVMRegHWResetSeq(UVMRegSequence):
                           sv.sformatf("Status was %s when reading reset value of register \"%s\" through map \"%s\".",
                           uvm_status_e(status), regs[i].get_full_name(), maps[d].get_full_name()))
 
-            blks = []  # uvm_reg_block blks[$]
-            blk.get_blocks(blks)
-            for i in range(len(blks)):
-                await self.do_block(blks[i])
+        blks = []  # uvm_reg_block blks[$]
+        blk.get_blocks(blks)
+        for i in range(len(blks)):
+            await self.do_block(blks[i])
 
         #   endtask:do_block
 
-- 
2.43.0


From c9eeb1e4cc030073bbedc7c862300d1e9939dfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:10 +0000
Subject: [PATCH 122/131] fix: memory walk sequence obeys NO_MEM_WALK_TEST of
 blocks

---
 src/uvm/reg/sequences/uvm_mem_walk_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_walk_seq.py b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
index 8b11521..68c11f2 100644
--- a/src/uvm/reg/sequences/uvm_mem_walk_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
@@ -258,7 +258,7 @@ class UVMMemWalkSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
             UVMResourceDb.get_by_name("REG::" + blk.get_full_name(),
                 "NO_MEM_TESTS", 0) is not None or
             UVMResourceDb.get_by_name("REG::" + blk.get_full_name(),
-                "NO_MEM_ACCESS_TEST", 0) is not None):
+                "NO_MEM_WALK_TEST", 0) is not None):
             return
 
         # Iterate over all memories, checking accesses
-- 
2.43.0


From 4ca0f68643fde9a5ad7acc535550566eaf0a2a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:57 +0000
Subject: [PATCH 123/131] fix: objection callbacks need not implement every
 hook

---
 src/uvm/base/uvm_objection.py | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 8d4327b..7db4d90 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -107,29 +107,15 @@ class UVMObjectionCallback(UVMCallback):
     """
     def __init__(self, name):
         super().__init__(name)
-    #  // Function: raised
-    #  //
-    #  // Objection raised callback function. Called by <uvm_objection::raised>.
-    #
-    #  virtual function void raised (uvm_objection objection, uvm_object obj,
-    #      uvm_object source_obj, string description, int count)
-    #  endfunction
-    #
-    #  // Function: dropped
-    #  //
-    #  // Objection dropped callback function. Called by <uvm_objection::dropped>.
-    #
-    #  virtual function void dropped (uvm_objection objection, uvm_object obj,
-    #      uvm_object source_obj, string description, int count)
-    #  endfunction
-    #
-    #  // Function: all_dropped
-    #  //
-    #  // Objection all_dropped callback function. Called by <uvm_objection::all_dropped>.
-    #
-    #  virtual task all_dropped (uvm_objection objection, uvm_object obj,
-    #      uvm_object source_obj, string description, int count)
-    #  endtask
+
+    def raised(self, objection, obj, source_obj, description, count):
+        """Objection raised callback function. Called by `UVMObjection.raised`."""
+
+    def dropped(self, objection, obj, source_obj, description, count):
+        """Objection dropped callback function. Called by `UVMObjection.dropped`."""
+
+    async def all_dropped(self, objection, obj, source_obj, description, count):
+        """Objection all_dropped callback function. Called by `UVMObjection.all_dropped`."""
 
 
 class UVMObjection(UVMReportObject):
-- 
2.43.0


From c987f060ec4b488b5410dd995286ae339d973017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:49 +0000
Subject: [PATCH 124/131] fix: run-time phases can be added to more than one
 schedule

---
 src/uvm/base/uvm_runtime_phases.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/uvm/base/uvm_runtime_phases.py b/src/uvm/base/uvm_runtime_phases.py
index 332dbc0..0c9f332 100644
--- a/src/uvm/base/uvm_runtime_phases.py
+++ b/src/uvm/base/uvm_runtime_phases.py
@@ -92,7 +92,7 @@ class UVMPreResetPhase(UVMTaskPhase):
         """
         if cls.m_inst is None:
             cls.m_inst = UVMPreResetPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_reset"):
         super().__init__(name)
@@ -144,7 +144,7 @@ class UVMResetPhase(UVMTaskPhase):
         """
         if cls.m_inst is None:
             cls.m_inst = UVMResetPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="reset"):
         super().__init__(name)
@@ -189,7 +189,7 @@ class UVMPostResetPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPostResetPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_reset"):
         super().__init__(name)
@@ -236,7 +236,7 @@ class UVMPreConfigurePhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPreConfigurePhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_configure"):
         super().__init__(name)
@@ -282,7 +282,7 @@ class UVMConfigurePhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMConfigurePhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="configure"):
         super().__init__(name)
@@ -329,7 +329,7 @@ class UVMPostConfigurePhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPostConfigurePhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_configure"):
         super().__init__(name)
@@ -373,7 +373,7 @@ class UVMPreMainPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPreMainPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_main"):
         super().__init__(name)
@@ -465,7 +465,7 @@ class UVMPostMainPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPostMainPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_main"):
         super().__init__(name)
@@ -508,7 +508,7 @@ class UVMPreShutdownPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPreShutdownPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_shutdown"):
         super().__init__(name)
@@ -554,7 +554,7 @@ class UVMShutdownPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMShutdownPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="shutdown"):
         super().__init__(name)
@@ -601,7 +601,7 @@ class UVMPostShutdownPhase(UVMTaskPhase):
         """
         if cls.m_inst is None:
             cls.m_inst = UVMPostShutdownPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_shutdown"):
         super().__init__(name)
-- 
2.43.0


From d8b2f3edd84cb350dc35f5dfbf3f685993798024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:10 +0000
Subject: [PATCH 125/131] fix: printing array elements which are objects does
 not leave the array

The name of the printed object was overwritten before its scope was left,
so leaving an element "[i]" left the whole array.
---
 src/uvm/base/uvm_printer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/uvm/base/uvm_printer.py b/src/uvm/base/uvm_printer.py
index 0ac764f..c943cfd 100644
--- a/src/uvm/base/uvm_printer.py
+++ b/src/uvm/base/uvm_printer.py
@@ -243,7 +243,6 @@ class UVMPrinter():
                 # Handle children of the comp
                 #if($cast(comp, value)) begin
                 comp = value
-                name = ""
                 if hasattr(comp, "m_children_ordered"):
                     # an iteration of the user over the children goes on afterwards
                     for child_comp in list(comp.m_children_ordered):
-- 
2.43.0


From 5005e14240bfd3a8d3876d72a3ff5bcb94a963ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:10 +0000
Subject: [PATCH 126/131] fix: integers are printed in octal with UVM_OCT

---
 src/uvm/base/uvm_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_misc.py b/src/uvm/base/uvm_misc.py
index c76d5f5..c822c60 100644
--- a/src/uvm/base/uvm_misc.py
+++ b/src/uvm/base/uvm_misc.py
@@ -204,7 +204,7 @@ def num_with_radix(radix, radix_str: str, value) -> str:
     if radix == UVM_BIN:
         return "{}{:b}".format(radix_str, value)
     if radix == UVM_OCT:
-        return "{}{}".format(radix_str, value)
+        return "{}{:o}".format(radix_str, value)
     if radix == UVM_UNSIGNED:
         return "{}{}".format(radix_str, value)
     if radix == UVM_STRING:
-- 
2.43.0


From d8b06bbf3bd3abef64e02b9068bc7bd271c893c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:10 +0000
Subject: [PATCH 127/131] fix: fields are printed in the radix they were
 registered with

---
 src/uvm/macros/uvm_object_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 4015afe..1eadbab 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -203,7 +203,7 @@ def uvm_field_utils_start(T):
 
                     if isinstance(v_attr_self, int):
                         T_cont.printer.print_field(v, v_attr_self,
-                            sv.bits(v_attr_self), (what__ & UVM_RADIX))
+                            sv.bits(v_attr_self), (mask_v & UVM_RADIX))
                     elif isinstance(v_attr_self, UVMObject):
                         if mask_v & UVM_REFERENCE:
                             T_cont.printer.print_object_header(v, v_attr_self)
-- 
2.43.0


From 79e5a3d7834d960252eea718a228edbb0724c507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:10 +0000
Subject: [PATCH 128/131] fix: print_field_int shows negative values in decimal
 as they are

---
 src/uvm/base/uvm_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_misc.py b/src/uvm/base/uvm_misc.py
index c822c60..83b244c 100644
--- a/src/uvm/base/uvm_misc.py
+++ b/src/uvm/base/uvm_misc.py
@@ -105,7 +105,7 @@ def uvm_integral_to_string(value, size, radix=UVM_NORADIX, radix_str="") -> str:
         str:
     """
     # sign extend & don't show radix for negative values
-    if radix == UVM_DEC and (value >> (size-1)) == 1:
+    if radix == UVM_DEC and (value >> (size-1)):
         return "{}".format(value)
 
     # TODO $countbits(value,'z) would be even better
-- 
2.43.0


From 01b88185e0cf807cc1a6409f5ccca33250188477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:18 +0000
Subject: [PATCH 129/131] fix: rows below the first level are indented in full,
 keeping columns aligned

---
 src/uvm/base/uvm_printer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_printer.py b/src/uvm/base/uvm_printer.py
index c943cfd..18ec5cb 100644
--- a/src/uvm/base/uvm_printer.py
+++ b/src/uvm/base/uvm_printer.py
@@ -717,7 +717,7 @@ class UVMTablePrinter(UVMPrinter):
             if user_format == "":
                 row_str = ""
                 if self.knobs.identifier:
-                    row_str = (space[1:row.level * self.knobs.indent] + row.name
+                    row_str = (space[1:row.level * self.knobs.indent + 1] + row.name
                         + space[1:self.m_max_name-len(row.name)-(row.level*self.knobs.indent)+2])
                 if self.knobs.type_name:
                     row_str = (row_str + row.type_name
@@ -789,7 +789,7 @@ class UVMTreePrinter(UVMPrinter):
             row = self.m_rows[i]
             user_format = self.format_row(row)
             if user_format == "":
-                indent_str = space[1:row.level * knobs.indent]
+                indent_str = space[1:row.level * knobs.indent + 1]
 
                 # Name (id)
                 if knobs.identifier:
-- 
2.43.0


From a54996ebc1b7dd7805bb49985c362849e1f92c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:55 +0000
Subject: [PATCH 130/131] fix: arrays which are elements of arrays can be
 printed

The footer of such an array left the enclosing array as well.
---
 src/uvm/base/uvm_printer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_printer.py b/src/uvm/base/uvm_printer.py
index 18ec5cb..e8add4a 100644
--- a/src/uvm/base/uvm_printer.py
+++ b/src/uvm/base/uvm_printer.py
@@ -151,7 +151,9 @@ class UVMPrinter():
 
     def print_array_footer(self, size=0):
         if len(self.m_array_stack) > 0:
-            self.m_scope.up()
+            # an array can be an element of another array
+            in_array = self.m_scope.m_stack[-1:] and self.m_scope.m_stack[-1][:1] == "["
+            self.m_scope.up("[" if in_array else ".")
             self.m_array_stack.pop()
 
 
-- 
2.43.0


From 35b9ea75b0a28fd622b039bf0e7a31415aca6259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:19 +0000
Subject: [PATCH 131/131] fix: backdoor reads of registers and memories made of
 several signals

---
 src/uvm/reg/uvm_mem.py | 4 +++-
 src/uvm/reg/uvm_reg.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 585ad70..9621e8f 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -1495,7 +1495,9 @@ class UVMMem(UVMObject):
 
                     _slice = 0
                     k = hdl_concat.slices[j].offset
-                    ok &= uvm_hdl.uvm_hdl_read(hdl_path, _slice)
+                    arr = []
+                    ok &= uvm_hdl.uvm_hdl_read(hdl_path, arr)
+                    _slice = arr[0]
 
                     # TODO Loops all bits one by one
                     for n in range(hdl_concat.slices[j].size):
diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index f912331..15bd5c8 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -2153,7 +2153,9 @@ class UVMReg(UVMObject):
                 _slice = 0
                 k = hdl_concat.slices[j].offset
 
-                ok &= uvm_hdl.uvm_hdl_read(hdl_concat.slices[j].path, _slice)
+                arr = []
+                ok &= uvm_hdl.uvm_hdl_read(hdl_concat.slices[j].path, arr)
+                _slice = arr[0]
 
                 for _ in range(hdl_concat.slices[j].size):
                     bit_val = _slice & 0x1
-- 
2.43.0

