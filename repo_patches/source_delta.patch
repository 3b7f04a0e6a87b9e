From 57553c2b7ec0f4b123725167de5fa89abe9256ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:04 +0000
Subject: [PATCH 01/84] fix: sorted filter store serves falsy items and removes
 the chosen item, not an equal one

---
 src/upstage_des/resources/sorted.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/resources/sorted.py b/src/upstage_des/resources/sorted.py
index 576ce0b..ef4f7f5 100644
--- a/src/upstage_des/resources/sorted.py
+++ b/src/upstage_des/resources/sorted.py
@@ -81,22 +81,22 @@ class SortedFilterStore(Store):
         get = BoundClass(_SortedFilterStoreGet)
 
     def _do_get(self, event: _SortedFilterStoreGet) -> bool:  # type: ignore[override]
-        min_item: Any = None
+        # Track the position, since items may be falsy or equal to each other.
+        min_idx: int | None = None
         # min_val is a tuple, in case the sorter returns an iterable
         min_val: tuple[Any, ...] | None = None
-        for item in self.items:
+        for idx, item in enumerate(self.items):
             if event.filter(item):
                 if event.sorter is not None:
                     val = event.sorter(item)
                     if min_val is None or (val > min_val if event.reverse else val < min_val):
-                        min_item = item
+                        min_idx = idx
                         min_val = val
                 else:
-                    min_item = item
+                    min_idx = idx
                     break
-        if min_item:
-            self.items.remove(min_item)
-            event.succeed(min_item)
+        if min_idx is not None:
+            event.succeed(self.items.pop(min_idx))
         return True
 
 
-- 
2.43.0


From 98706e26c80aaae8712fc0960e5b70ad9b402068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:53 +0000
Subject: [PATCH 02/84] fix: cancel a reservation by an equal requester, as
 take and reserve do

---
 src/upstage_des/resources/reserve.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/upstage_des/resources/reserve.py b/src/upstage_des/resources/reserve.py
index 80416ea..34c05bc 100644
--- a/src/upstage_des/resources/reserve.py
+++ b/src/upstage_des/resources/reserve.py
@@ -103,11 +103,8 @@ class ReserveContainer:
         if requester not in self._queued:
             return False
         else:
-            request = [x for x in self._queued if x is requester]
-            if not request:
-                raise ValueError("Requester not available to cancel")
             self._level += self._queued[requester][0]
-            self._queued.pop(request[0])
+            self._queued.pop(requester)
             return True
 
     def take(self, requester: Any) -> float:
-- 
2.43.0


From aa769aa9716d85cd4a9900d8d3b21919d2b895fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:53 +0000
Subject: [PATCH 03/84] fix: reserved amounts count against the capacity of a
 reserve container

---
 src/upstage_des/resources/reserve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/resources/reserve.py b/src/upstage_des/resources/reserve.py
index 34c05bc..3ea65ca 100644
--- a/src/upstage_des/resources/reserve.py
+++ b/src/upstage_des/resources/reserve.py
@@ -118,9 +118,9 @@ class ReserveContainer:
 
     def put(self, amount: float, capacity_increase: bool = False) -> None:
         """Put some quantity back in."""
-        new = self._level + amount
+        new = self._real_level + amount
         if new > self.capacity and not capacity_increase:
             raise ValueError("Adding too much.")
         else:
-            self._level = new
-            self._real_level += amount
+            self._level += amount
+            self._real_level = new
-- 
2.43.0


From 209f43a85b15b90ddf23b696e39d4103bccac6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:53 +0000
Subject: [PATCH 04/84] fix: an expiration only cancels the reservation it was
 made for

---
 src/upstage_des/resources/reserve.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/resources/reserve.py b/src/upstage_des/resources/reserve.py
index 3ea65ca..97c3d4d 100644
--- a/src/upstage_des/resources/reserve.py
+++ b/src/upstage_des/resources/reserve.py
@@ -72,7 +72,9 @@ class ReserveContainer:
         return list(self._queued.keys())
 
     @process
-    def _expire_request(self, requester: Any, time: float) -> Generator[Event, None, None]:
+    def _expire_request(
+        self, requester: Any, time: float, request: tuple[float, float]
+    ) -> Generator[Event, None, None]:
         """Expire the request after an expiration period or at a specific time.
 
         :param request: the Request namedtuple object
@@ -83,7 +85,9 @@ class ReserveContainer:
 
         """
         yield self._env.timeout(time)
-        self.cancel_request(requester)
+        # The requester may have made another reservation in the meantime.
+        if self._queued.get(requester) is request:
+            self.cancel_request(requester)
 
     def reserve(self, requester: Any, quantity: float, expiration: float | None = None) -> bool:
         """Reserve a quantity of storage."""
@@ -93,7 +97,7 @@ class ReserveContainer:
             self._level -= quantity
             self._queued[requester] = (quantity, self._env.now)
             if expiration is not None:
-                self._expire_request(requester, expiration)
+                self._expire_request(requester, expiration, self._queued[requester])
             return True
         else:
             return False
-- 
2.43.0


From c74dbd353f138643f00da4c6de1a199027f6d095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:12 +0000
Subject: [PATCH 05/84] fix: continuous container checks its bounds only when
 they are met, and ends no finished request

The check ran again on every change of rate, with the new rate, and interrupted
processes which had already ended; rounding made it raise the wrong error or none.
time_until_level also used the level of the last change of rate.
---
 src/upstage_des/resources/container.py | 41 +++++++++++++++-----------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/upstage_des/resources/container.py b/src/upstage_des/resources/container.py
index dc76d40..6afbcf5 100644
--- a/src/upstage_des/resources/container.py
+++ b/src/upstage_des/resources/container.py
@@ -220,7 +220,7 @@ class ContinuousContainer:
             return 0.0  # pragma: no cover
         elif rate == 0:
             return float("inf")  # pragma: no cover
-        time = (level - self._level) / rate
+        time = (level - self.level) / rate
         return time if time > 0 else float("inf")
 
     def time_until_done(self, rate: float = 0.0) -> float:
@@ -334,27 +334,34 @@ class ContinuousContainer:
         if not self._rate or self._rate == 0:
             return  # pragma: no coverd
 
-        level = self.level
-
-        check_wait = ((self._capacity if self._rate > 0 else 0.0) - level) / self._rate
+        at_limit = self._capacity if self._rate > 0 else 0.0
+        check_wait = (at_limit - self.level) / self._rate
 
         try:
-            yield self._env.timeout(check_wait)
+            # Rounding can put the level a hair past the limit.
+            yield self._env.timeout(max(check_wait, 0.0))
         except Interrupt as interruption:
             if interruption.cause != "updated":
                 raise  # pragma: no cover
-        finally:
-            to_rem: list[ContinuousGet] | list[ContinuousPut] = []
-            rate: float
-            self._set_level()
-            if self._rate < 0:
-                to_rem, rate = self._check_empty()
-            elif self._rate > 0:
-                to_rem, rate = self._check_full()
-            if to_rem:
-                for req in to_rem:
-                    self._active_users.remove(req)
-                self._add_rate(rate, interrupt=False)
+            # The rate changed, and a new check is running with that rate.
+            return
+
+        self._checking = None
+        # The limit is met here by construction, so drop any rounding error.
+        self._level = at_limit
+        self._last = self._env.now
+        self._set_level()
+
+        to_rem: list[ContinuousGet] | list[ContinuousPut] = []
+        rate: float
+        if self._rate < 0:
+            to_rem, rate = self._check_empty()
+        else:
+            to_rem, rate = self._check_full()
+        if to_rem:
+            for req in to_rem:
+                self._active_users.remove(req)
+            self._add_rate(rate, interrupt=False)
 
     def _add_rate(self, rate_change: float | int, interrupt: bool = True) -> None:
         """Add a new rate to the existing rate."""
-- 
2.43.0


From 6903128e0ab72ef4f364c2a564038f4280a15f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:58 +0000
Subject: [PATCH 06/84] fix: a request cancelled in the instant it was granted
 gives back what it was granted

---
 src/upstage_des/events.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index f345f1e..edc181b 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -279,9 +279,13 @@ class BaseRequestEvent(BaseEvent):
         """Cancel the Request."""
         if self._request_event is None:
             return
-        if not self.is_complete():
+        if not self._request_event.triggered:
             self._request_event.cancel()
-        # TODO: Do we put it back?
+        elif not self.is_complete():
+            self._give_back()
+
+    def _give_back(self) -> None:
+        """Return what was granted in this instant, but that no one has received yet."""
 
     def is_complete(self) -> bool:
         """Test if the request is finished.
@@ -613,6 +617,15 @@ class Get(BaseRequestEvent):
                 "complete and use the amount you requested."
             )
 
+    def _give_back(self) -> None:
+        """Return the granted item or amount to where it came from."""
+        if self._request_event is None:
+            return
+        if self.__is_store:
+            self.get_location.put(self._request_event.value)
+        else:
+            self.get_location.put(self._request_event.amount)
+
     def rehearse(self) -> tuple[float, tyAny]:
         """Mock the event to test if it is feasible.
 
@@ -710,6 +723,11 @@ class ResourceHold(BaseRequestEvent):
             return self._request_event
         raise UpstageError(f"Bad stage for Resource Hold: {self._stage}")
 
+    def _give_back(self) -> None:
+        """Return the resource if it was just granted."""
+        if isinstance(self._request_event, Request):
+            self.resource.release(self._request_event)
+
 
 class FilterGet(Get):
     """A Get for a FilterStore."""
-- 
2.43.0


From 001ae3e1a9754d3a7ed314279eb0512b689bf723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:58 +0000
Subject: [PATCH 07/84] fix: a compound event that was just completed can be
 cancelled

---
 src/upstage_des/events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index edc181b..8498957 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -430,7 +430,8 @@ class MultiEvent(BaseEvent):
         if self._simpy_event is None:
             raise UpstageError("Can't cancel a nonexistent event.")
         self._simpy_event.defused = True
-        self._simpy_event.fail(Exception("defused"))
+        if not self._simpy_event.triggered:
+            self._simpy_event.fail(Exception("defused"))
         for event in self.events:
             if isinstance(event, BaseEvent):
                 try:
-- 
2.43.0


From cdc90e2129f661ace7580654707fcb425a0a6f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:58 +0000
Subject: [PATCH 08/84] fix: cancelling an event that already succeeded does
 nothing

---
 src/upstage_des/events.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 8498957..2cd1773 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -872,8 +872,11 @@ class Event(BaseEvent):
     def cancel(self) -> None:
         """Cancel the event.
 
-        Cancelling doesn't mean much, since it's still going to be yielded on.
+        Cancelling doesn't mean much, since it's still going to be yielded on. An
+        event that has already succeeded is left alone.
         """
+        if self._event.triggered and (self._event.processed or not self._event.defused):
+            return
         try:
             self._event.defused = True
             self._event.succeed()
-- 
2.43.0


From 368f8b058067dd36b9392c4fd9c6dc8d8ef90ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:13 +0000
Subject: [PATCH 09/84] fix: an interrupt leaves an awaited event alone that
 has already triggered, and a process that has ended

---
 src/upstage_des/task.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 158e30a..baa22c0 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -452,9 +452,12 @@ class Task(SettableEnv):
                 for name in names:
                     if actor._knowledge[name] is next_event:
                         actor.clear_knowledge(name, caller=f"Clearing knowledge event {name}")
-                next_event.cancel()
+                # A shared event may have been cancelled by another task's interrupt already
+                if not (isinstance(next_event, Event) and next_event._event.triggered):
+                    next_event.cancel()
             elif isinstance(next_event, Process):
-                next_event.interrupt(cause=interrupt.cause)
+                if next_event.is_alive:
+                    next_event.interrupt(cause=interrupt.cause)
             else:
                 raise SimulationError(f"Bad event passed: {next_event}")
         elif _interrupt_action != InterruptStates.IGNORE:
-- 
2.43.0


From 34c56982be1b5234d26008c393bc515e7d871aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:45 +0000
Subject: [PATCH 10/84] fix: a task only ends the mimicking that it started

---
 src/upstage_des/actor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 9cb8282..8e2e004 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -516,6 +516,8 @@ Args:
             self_state (str): State name
             task (Task): Task it's running in.
         """
+        if self_state not in self._mimic_states_by_task.get(task, ()):
+            raise SimulationError(f"State '{self_state}' is not mimicking in '{task}'.")
         getattr(self, self_state)
         mimic_actor, mimic_state = self._mimic_states[self_state]
         state = self._state_defs[self_state]
@@ -531,7 +533,8 @@ Args:
         Args:
             task (Task): The task where states are mimicking others.
         """
-        for state in list(self._mimic_states):
+        mine = self._mimic_states_by_task.get(task, ())
+        for state in [name for name in self._mimic_states if name in mine]:
             self.deactivate_mimic_state(self_state=state, task=task)
 
     def _add_callback_to_state(
-- 
2.43.0


From 2ecb94d2c653d71913c7f5b862b006a661777331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:45 +0000
Subject: [PATCH 11/84] fix: a routine returns its own value to its task, not
 an earlier event's

---
 src/upstage_des/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index baa22c0..be7e14a 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -496,8 +496,7 @@ class Task(SettableEnv):
                         except StopIteration as e:
                             generators.pop()
                             gen_objs.pop()
-                            if e.value is not None:
-                                return_item = e.value
+                            return_item = e.value
                             if not generators:
                                 stop_run = True
                                 break
@@ -508,6 +507,7 @@ class Task(SettableEnv):
                         if isinstance(next_event, Routine):
                             generators.append(next_event._run())
                             gen_objs.append(next_event)
+                            return_item = None
                             continue
 
                         if isinstance(next_event, Process):
-- 
2.43.0


From 40a41c5ce383eab492f76e0eb8e339a2c5befbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:45 +0000
Subject: [PATCH 12/84] fix: another interrupt does not stop the clean-up of an
 interrupted routine

---
 src/upstage_des/task.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index be7e14a..b6900ae 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -464,6 +464,20 @@ class Task(SettableEnv):
             raise SimulationError(f"Wrong interrupt action value: {_interrupt_action}")
         return _interrupt_action
 
+    def _clean_up(self, actor: "Actor", routine: Routine) -> Generator[SimpyEvent, Any, None]:
+        """Run the clean-up of an interrupted routine to its end.
+
+        Args:
+            actor (Actor): The actor using the task
+            routine (Routine): The interrupted routine
+        """
+        for event in routine._run_cancel():
+            while not event.processed:
+                try:
+                    yield event
+                except Interrupt as interrupt:
+                    actor.log(f"Already cleaning up when interrupted by {interrupt}.")
+
     @process
     def run(self, *, actor: "Actor") -> Generator[SimpyEvent | Process, Any, None]:
         """Execute the task.
@@ -544,7 +558,7 @@ class Task(SettableEnv):
                         gen_obj = gen_objs.pop()
                         if isinstance(gen_obj, Routine):
                             gen.close()
-                            yield from gen_obj._run_cancel()
+                            yield from self._clean_up(actor, gen_obj)
                     if action == InterruptStates.RESTART:
                         generators = [
                             self.task(actor=actor),
-- 
2.43.0


From ae56a9e43e1a9e19a9a88d2f834194b4d701d7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:45 +0000
Subject: [PATCH 13/84] fix: an interrupt in the instant of a decision does not
 stop the simulation

---
 src/upstage_des/task.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index b6900ae..e06237b 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -633,7 +633,10 @@ class DecisionTask(Task):
         """
         self.make_decision(actor=actor)
         assert isinstance(self.env, SimpyEnv)
-        yield self.env.timeout(0.0)
+        try:
+            yield self.env.timeout(0.0)
+        except Interrupt as interrupt:
+            actor.log(f"The decision was already made when interrupted by {interrupt}.")
 
     def run_skip(self, *, actor: "Actor") -> None:
         """Run the decision task with no clock reference.
-- 
2.43.0


From c551b75a0cfe21d388b63ffc1527a9343cc92a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:45 +0000
Subject: [PATCH 14/84] fix: a nucleus only interrupts tasks that are still
 running

---
 src/upstage_des/nucleus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/nucleus.py b/src/upstage_des/nucleus.py
index d04f4fa..2e43656 100644
--- a/src/upstage_des/nucleus.py
+++ b/src/upstage_des/nucleus.py
@@ -104,7 +104,7 @@ class TaskNetworkNucleus:
             if net is None:
                 raise UpstageError(f"No network {net_name} in {self._actor}")
             proc = net._current_task_proc
-            if proc is not None:
+            if proc is not None and proc.is_alive:
                 proc.interrupt(
                     cause=NucleusInterrupt(state_name, state_value),
                 )
-- 
2.43.0


From 93ce14c4cabf5914b43bef687ec4c2fb165582e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:45 +0000
Subject: [PATCH 15/84] fix: an event succeeded twice in the same instant keeps
 its first payload

---
 src/upstage_des/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 2cd1773..54ae96d 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -843,7 +843,7 @@ class Event(BaseEvent):
         Args:
             **kwargs (Any): key:values to store as payload.
         """
-        if self.is_complete():
+        if self.is_complete() or self._event.triggered:
             raise SimulationError("Event has already completed")
         self._payload = kwargs
         self._event.succeed()
-- 
2.43.0


From e84edf7ecc4c43ccfd46b6ca460b6ffb5f129a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:45 +0000
Subject: [PATCH 16/84] fix: the value of an unfinished or empty-valued get is
 reported as documented

---
 src/upstage_des/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 54ae96d..67be8de 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -608,7 +608,7 @@ class Get(BaseRequestEvent):
         if self.__is_store:
             if self.rehearsing and self.done_rehearsing:
                 return PLANNING_FACTOR_OBJECT
-            if self._request_event is not None and self._request_event.value is not None:
+            if self._request_event is not None and self._request_event.processed:
                 return self._request_event.value
             else:
                 raise SimulationError("Requested item from an unfinished Get request.")
-- 
2.43.0


From 2621af5cbe1a7197a381c0835e05bed30df4dc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:34 +0000
Subject: [PATCH 17/84] fix: recording functions are not given the activation
 marks as values

---
 src/upstage_des/states.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 1d70d72..e1622f0 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -206,7 +206,9 @@ class State(Generic[ST]):
         ):
             instance._state_histories[self.name].append(to_append)
 
-        self._do_record_funcs(instance, *to_append)
+        # An activation mark is no value of the state
+        if override is None:
+            self._do_record_funcs(instance, *to_append)
 
     def _do_callback(self, instance: "Actor", value: ST) -> None:
         """Run callbacks for the state change.
-- 
2.43.0


From 5b854bf94cb20fbee6b6fd4a48f791f3c606534b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:52 +0000
Subject: [PATCH 18/84] fix: a location state records its value when it is
 activated

---
 src/upstage_des/states.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index e1622f0..0f7dbfe 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -654,6 +654,8 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
             raise SimulationError(f"Cannot set state '{self.name}' start time in the future!")
         elif elapsed == 0:
             return_value: CartesianLocation = data["value"]  # pragma: no cover
+            # marks of activation come after a value recorded at the same time
+            self._do_record(instance, return_value)
         else:
             # Get the location along the waypoint path
             wypt_index, wypt_start = self._get_index(path_data, elapsed)
@@ -858,6 +860,8 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
             raise SimulationError(f"Cannot set state '{self.name}' start time in the future!")
         elif elapsed == 0:
             return_value: GeodeticLocation = data["value"]  # pragma: no cover
+            # marks of activation come after a value recorded at the same time
+            self._do_record(instance, return_value)
         else:
             # Get the location along the waypoint path
             wypt_index, wypt_start = self._get_index(path_data, elapsed)
-- 
2.43.0


From 3f46367b028720f84ce00fb8549310c30b52ebef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:52 +0000
Subject: [PATCH 19/84] fix: a shared linear state records when its last task
 deactivates it

---
 src/upstage_des/state_sharing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/state_sharing.py b/src/upstage_des/state_sharing.py
index 5867c2f..6f7ae68 100644
--- a/src/upstage_des/state_sharing.py
+++ b/src/upstage_des/state_sharing.py
@@ -125,4 +125,4 @@ class SharedLinearChangingState(ActiveState[float]):
         getattr(instance, self.name)
         if rate_tasks:
             return True
-        return False
+        return super().deactivate(instance, task)
-- 
2.43.0


From dc08224d582e3e498de677aa240d3b8e79e90c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:56 +0000
Subject: [PATCH 20/84] fix: an active linear state goes on from the value
 assigned to it

---
 src/upstage_des/state_sharing.py | 12 ++++++++++++
 src/upstage_des/states.py        | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/upstage_des/state_sharing.py b/src/upstage_des/state_sharing.py
index 6f7ae68..63cfa40 100644
--- a/src/upstage_des/state_sharing.py
+++ b/src/upstage_des/state_sharing.py
@@ -50,6 +50,18 @@ class SharedLinearChangingState(ActiveState[float]):
         )
         self.IGNORE_LOCK: bool = True
 
+    def __set__(self, instance: Actor, value: float) -> None:
+        """Set the value; an active state changes from it from now on.
+
+        Args:
+            instance (Actor): The actor holding the state
+            value (float): The state's value
+        """
+        super().__set__(instance, value)
+        data = instance._active_states.get(self.name, None)
+        if data is not None:
+            data["_last_time"] = instance.env.now
+
     def _active(self, instance: Actor) -> float | None:
         """Return a value to set based on time or some other criteria.
 
diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 0f7dbfe..56b415d 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -479,6 +479,18 @@ class LinearChangingState(ActiveState[float]):
     >>>     )
     """
 
+    def __set__(self, instance: "Actor", value: float) -> None:
+        """Set the value; an active state changes from it from now on.
+
+        Args:
+            instance (Actor): The actor holding the state
+            value (float): The state's value
+        """
+        super().__set__(instance, value)
+        data = instance._active_states.get(self.name, None)
+        if data is not None:
+            data["started_at"] = instance.env.now
+
     def _active(self, instance: "Actor") -> float | None:
         """Return a value to set based on time or some other criteria."""
         data = self.get_activity_data(instance)
-- 
2.43.0


From 22d6425f0af9ee77c605ef1cb67bca9b11ca8073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:49 +0000
Subject: [PATCH 21/84] fix: a chain of mimic states shows changes of its
 source in every history

---
 src/upstage_des/actor.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 8e2e004..af342e4 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -501,13 +501,14 @@ Args:
         self._mimic_states_by_task[task].add(self_state)
 
         self_state_name = self._mimic_state_name(self_state)
-        if state.is_recording:
 
-            def recorder(instance: Actor, value: Any) -> None:
-                if instance is mimic_actor:
-                    state._do_record(self, value)
+        def recorder(instance: Actor, value: Any) -> None:
+            if instance is mimic_actor:
+                state._do_record(self, value)
+                # This state may be mimicked itself
+                state._do_callback(self, value)
 
-            mimic_actor._add_callback_to_state(self_state_name, recorder, mimic_state)
+        mimic_actor._add_callback_to_state(self_state_name, recorder, mimic_state)
 
     def deactivate_mimic_state(self, *, self_state: str, task: Task) -> None:
         """Deactivate a mimicking state.
@@ -522,8 +523,7 @@ Args:
         mimic_actor, mimic_state = self._mimic_states[self_state]
         state = self._state_defs[self_state]
         self_state_name = self._mimic_state_name(self_state)
-        if state.is_recording:
-            mimic_actor._remove_callback_from_state(self_state_name, mimic_state)
+        mimic_actor._remove_callback_from_state(self_state_name, mimic_state)
         del self._mimic_states[self_state]
         self._mimic_states_by_task[task].remove(self_state)
 
-- 
2.43.0


From 6ab5534063b59e32cda622a340618777a4be509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:52 +0000
Subject: [PATCH 22/84] fix: a dictionary state keeps its value when it refuses
 one of a wrong type

---
 src/upstage_des/state_proxies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/state_proxies.py b/src/upstage_des/state_proxies.py
index fb6304c..7a0409e 100644
--- a/src/upstage_des/state_proxies.py
+++ b/src/upstage_des/state_proxies.py
@@ -27,9 +27,9 @@ class _DictionaryProxy(Generic[VTD]):
         self._wrapped = wrapped
 
     def __setitem__(self, key: str, value: VTD) -> None:
-        self._wrapped[key] = value
         if not self.descriptor._type_check(value, throw=False):
             raise TypeError(f"Bad type for dictionary: {key}: {value}")
+        self._wrapped[key] = value
         self.descriptor._record_state(self.instance, key, all=False)
 
     def setdefault(self, key: str, value: VTD) -> VTD:
-- 
2.43.0


From d1e86e5b8f0b7bd526f0581a8fb7431def6c77a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:52 +0000
Subject: [PATCH 23/84] fix: key/value states record duplicates when asked to

---
 src/upstage_des/states.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 56b415d..e2cdffd 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1206,18 +1206,17 @@ class _KeyValueBase(State):
         record_duplicates: bool = False,
         recording_functions: list[RECORD_TUPLES] | None = None,
     ) -> None:
-        # Frozen, recording, and record duplicates are set so
-        # that the overall state's value (a dictionary) is
-        # never touched, and only its members are accessed.
+        # Frozen and recording are set so that the overall
+        # state's value (a dictionary) is never touched, and
+        # only its members are accessed.
         super().__init__(
             frozen=True,
             valid_types=valid_types,
             recording=False,
-            record_duplicates=False,
+            record_duplicates=record_duplicates,
             recording_functions=recording_functions,
         )
         self._record_indiv = recording
-        self._record_indiv_dupe = record_duplicates
 
     def _record_single(self, instance: "Actor", time: float, key: str, value: Any) -> None:
         name = f"{self.name}.{key}"
-- 
2.43.0


From 01781422709c071ee7c6c3d0b9d9e6bcefff3ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:52 +0000
Subject: [PATCH 24/84] fix: dataclass states accept values for inherited
 fields and for annotations given as text

---
 src/upstage_des/state_proxies.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/state_proxies.py b/src/upstage_des/state_proxies.py
index 7a0409e..17cef00 100644
--- a/src/upstage_des/state_proxies.py
+++ b/src/upstage_des/state_proxies.py
@@ -2,7 +2,7 @@
 
 from collections.abc import ItemsView, Iterable, KeysView, ValuesView
 from dataclasses import is_dataclass
-from typing import TYPE_CHECKING, Any, Generic, TypeVar, cast
+from typing import TYPE_CHECKING, Any, Generic, TypeVar, cast, get_type_hints
 
 VTD = TypeVar("VTD")
 TDC = TypeVar("TDC")
@@ -107,7 +107,8 @@ class _DataclassProxy(Generic[TDC]):
         return self._wrapped.__dataclass_fields__
 
     def _typecheck(self, name: str, value: Any) -> None:
-        field_type = self._wrapped.__annotations__[name]
+        # Includes inherited fields and annotations given as strings
+        field_type = get_type_hints(type(self._wrapped))[name]
         if not isinstance(value, field_type):
             raise TypeError(
                 f"Dataclass value {value} for field {name} doesn't match type: {field_type}."
-- 
2.43.0


From c8fdc39dea26992aa1eaeabefba2be33460824f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:52 +0000
Subject: [PATCH 25/84] fix: two dictionary states with equal content compare
 equal

---
 src/upstage_des/state_proxies.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/state_proxies.py b/src/upstage_des/state_proxies.py
index 17cef00..cea6e1a 100644
--- a/src/upstage_des/state_proxies.py
+++ b/src/upstage_des/state_proxies.py
@@ -85,9 +85,11 @@ class _DictionaryProxy(Generic[VTD]):
         return len(self._wrapped)
 
     def __eq__(self, other: Any) -> bool:
+        if isinstance(other, _DictionaryProxy):
+            other = other._wrapped
         if not isinstance(other, dict):
             return False
-        return other == self._wrapped
+        return bool(other == self._wrapped)
 
     def __repr__(self) -> str:
         return repr(self._wrapped)
-- 
2.43.0


From aa8c8249a60fbe63f0af87a965d20db273229173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:05 +0000
Subject: [PATCH 26/84] fix: get_stage_variable returns the variable for names
 that dictionaries use

---
 src/upstage_des/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index d952c44..aa412fb 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -607,7 +607,7 @@ def get_stage_variable(varname: str) -> Any:
         raise ValueError("Stage should have been set.")
     if varname not in stage:
         raise UpstageError(f"Variable '{varname}' does not exist in the stage")
-    return getattr(stage, varname)
+    return stage[varname]
 
 
 def get_stage() -> StageProtocol:
-- 
2.43.0


From ef677bf1471663c1719e5c33778d35a9e18d4b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:05 +0000
Subject: [PATCH 27/84] fix: entities that compare equal are all registered

---
 src/upstage_des/actor.py                | 2 +-
 src/upstage_des/base.py                 | 2 +-
 src/upstage_des/resources/monitoring.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index af342e4..74aa330 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -260,7 +260,7 @@ Args:
         Called by the NamedUpstageEntity on group inits.
         """
         ans = SPECIAL_ENTITY_CONTEXT_VAR.get().actors
-        if self in ans:
+        if any(actor is self for actor in ans):
             return
         ans.append(self)
 
diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index aa412fb..e0cee89 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -393,7 +393,7 @@ class NamedUpstageEntity(UpstageBase):
         try:
             ans = ENTITY_CONTEXT_VAR.get()
             ans.setdefault(group_name, [])
-            if self in ans[group_name]:
+            if any(entity is self for entity in ans[group_name]):
                 raise UpstageError(f"Entity: {self} already recorded in the environment")
             ans[group_name].append(self)
         except LookupError:
diff --git a/src/upstage_des/resources/monitoring.py b/src/upstage_des/resources/monitoring.py
index 8047930..22ec30f 100644
--- a/src/upstage_des/resources/monitoring.py
+++ b/src/upstage_des/resources/monitoring.py
@@ -43,7 +43,7 @@ class MonitoringMixin(NamedUpstageEntity, skip_classname=True):
         Called by the NamedUpstageEntity on group inits.
         """
         ans = SPECIAL_ENTITY_CONTEXT_VAR.get().monitored
-        if self in ans:
+        if any(monitored is self for monitored in ans):
             return
         ans.append(self)
 
-- 
2.43.0


From 41d3a149e7851990df21e114ffaaa5aafd995859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:00 +0000
Subject: [PATCH 28/84] fix: every time unit converts to every other one

---
 src/upstage_des/units/convert.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/units/convert.py b/src/upstage_des/units/convert.py
index 9c51b0c..6d9e901 100644
--- a/src/upstage_des/units/convert.py
+++ b/src/upstage_des/units/convert.py
@@ -24,11 +24,29 @@ CONVERSIONS: dict[str, dict[str, float]] = {
         "nmi": 1.0,
         "m": 1 / 0.539957 * 1000,
     },
-    "s": {"hr": 1.0 / (60.0 * 60.0), "min": 1.0 / 60.0, "s": 1.0},
-    "min": {"hr": 1.0 / 60.0, "min": 1.0, "s": 60.0},
-    "hr": {"hr": 1.0, "min": 60.0, "s": (60.0 * 60.0)},
-    "day": {"hr": 24.0, "week": 1 / 7.0, "min": 24 * 60.0, "s": 24 * 3600},
-    "week": {"day": 7.0, "hr": 7.0 * 24, "min": 7.0 * 24 * 60.0, "s": 7.0 * 24 * 3600},
+    "s": {
+        "hr": 1.0 / (60.0 * 60.0),
+        "min": 1.0 / 60.0,
+        "s": 1.0,
+        "day": 1.0 / (24 * 3600.0),
+        "week": 1.0 / (7.0 * 24 * 3600.0),
+    },
+    "min": {
+        "hr": 1.0 / 60.0,
+        "min": 1.0,
+        "s": 60.0,
+        "day": 1.0 / (24 * 60.0),
+        "week": 1.0 / (7.0 * 24 * 60.0),
+    },
+    "hr": {"hr": 1.0, "min": 60.0, "s": (60.0 * 60.0), "day": 1 / 24.0, "week": 1 / (7.0 * 24)},
+    "day": {"hr": 24.0, "week": 1 / 7.0, "min": 24 * 60.0, "s": 24 * 3600, "day": 1.0},
+    "week": {
+        "day": 7.0,
+        "hr": 7.0 * 24,
+        "min": 7.0 * 24 * 60.0,
+        "s": 7.0 * 24 * 3600,
+        "week": 1.0,
+    },
 }
 
 DISTANCE_UNITS = ["m", "km", "mi", "nmi", "ft"]
-- 
2.43.0


From fa8520f0e9793397868c5fddfe1c55b9244ecf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:00 +0000
Subject: [PATCH 29/84] fix: the formatted clock does not lose a second or the
 case of its unit

---
 src/upstage_des/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index e0cee89..af865a7 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -349,14 +349,14 @@ class UpstageBase:
         time_unit = self.stage.get("time_unit", None)
         # If it's explicitly set to None, still treat it as hours.
         time_unit = "hr" if time_unit is None else time_unit
-        standard = TIME_ALTERNATES.get(time_unit.lower(), time_unit)
+        standard = TIME_ALTERNATES.get(time_unit.lower(), time_unit.lower())
 
         ts: str
         if standard in STANDARD_TIMES:
-            now_hrs = unit_convert(now, time_unit, "hr")
-            day = floor(now_hrs / 24)
-            rem_hours = now_hrs - (day * 24)
-            hms = strftime("%H:%M:%S", gmtime(rem_hours * 3600))
+            # Rounding keeps floating point error from showing the second before
+            now_sec = round(unit_convert(now, time_unit, "s"), 6)
+            day = floor(now_sec / (24 * 3600))
+            hms = strftime("%H:%M:%S", gmtime(now_sec - (day * 24 * 3600)))
             ts = f"[Day {day:4.0f} - {hms:s}]"
         else:
             day_unit_count = self.stage.get("daily_time_count", None)
-- 
2.43.0


From 5f460be8d1ee348b750ce9916e5de4e07ebd19c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:49 +0000
Subject: [PATCH 30/84] fix: a frozen state whose value is None cannot be
 changed either

---
 src/upstage_des/states.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index e2cdffd..cd34b7f 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -251,13 +251,12 @@ class State(Generic[ST]):
             instance (Actor): The actor holding the state
             value (Any): The state's value
         """
-        if self._frozen:
-            old_value = instance.__dict__.get(self.name, None)
-            if old_value is not None:
-                raise SimulationError(
-                    f"State '{self}' on '{instance}' has already been frozen "
-                    f"to value of {old_value}. It cannot be changed once set!"
-                )
+        if self._frozen and self.name in instance.__dict__:
+            old_value = instance.__dict__[self.name]
+            raise SimulationError(
+                f"State '{self}' on '{instance}' has already been frozen "
+                f"to value of {old_value}. It cannot be changed once set!"
+            )
 
         self._type_check(value, throw=True)
 
-- 
2.43.0


From 2f3dd1b002f2f9a1bf8bd256c067429af6e8377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:20 +0000
Subject: [PATCH 31/84] fix: a rehearsal that raises leaves the task and the
 network as they were

---
 src/upstage_des/task.py         | 46 ++++++++++++++++++++++++++-------
 src/upstage_des/task_network.py | 30 ++++++++++++++++++---
 2 files changed, 62 insertions(+), 14 deletions(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index e06237b..e0e628d 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -384,8 +384,33 @@ class Task(SettableEnv):
         Returns:
             Actor: The cloned actor with a state reflecting the task flow.
         """
-        knowledge = {} if knowledge is None else knowledge
         _old_env = self.env
+        _old_rehearsing = self._rehearsing
+        try:
+            return self._rehearse(actor, knowledge, cloned_actor, **kwargs)
+        finally:
+            self.env = _old_env
+            self._rehearsing = _old_rehearsing
+
+    def _rehearse(
+        self,
+        actor: REH_ACTOR,
+        knowledge: dict[str, Any] | None,
+        cloned_actor: bool,
+        **kwargs: Any,
+    ) -> REH_ACTOR:
+        """Do the rehearsal, leaving the task set up for rehearsing.
+
+        Args:
+            actor (Actor): The actor to rehearse in the task
+            knowledge (dict[str, Any] | None): Knowledge to add to the actor.
+            cloned_actor (bool): If the actor is a clone or not.
+            kwargs (Any): Optional args to send to the task.
+
+        Returns:
+            Actor: The cloned actor with a state reflecting the task flow.
+        """
+        knowledge = {} if knowledge is None else knowledge
         understudy = actor
         if not cloned_actor:
             understudy = self._clone_actor(actor, knowledge)
@@ -418,8 +443,6 @@ class Task(SettableEnv):
                 #      f"{self.env.now - _old_env.now:.3g}]")
                 break
 
-        self.env = _old_env
-        self._rehearsing = False
         return understudy
 
     def _handle_interruption(
@@ -609,16 +632,19 @@ class DecisionTask(Task):
         """
         knowledge = {} if knowledge is None else knowledge
         _old_env = self.env
+        _old_rehearsing = self._rehearsing
         understudy = actor
-        if not cloned_actor:
-            understudy = self._clone_actor(actor, knowledge)
-        self.env = understudy.env
+        try:
+            if not cloned_actor:
+                understudy = self._clone_actor(actor, knowledge)
+            self.env = understudy.env
 
-        self._rehearsing = True
+            self._rehearsing = True
 
-        self.rehearse_decision(actor=understudy)
-        self.env = _old_env
-        self._rehearsing = False
+            self.rehearse_decision(actor=understudy)
+        finally:
+            self.env = _old_env
+            self._rehearsing = _old_rehearsing
         return understudy
 
     @process
diff --git a/src/upstage_des/task_network.py b/src/upstage_des/task_network.py
index 3c0c8c6..d09b73b 100644
--- a/src/upstage_des/task_network.py
+++ b/src/upstage_des/task_network.py
@@ -159,6 +159,32 @@ class TaskNetwork:
         _old_name = self._current_task_name
         _old_inst = self._current_task_inst
         _old_proc = self._current_task_proc
+        try:
+            return self._rehearse_network(actor, task_name_list, knowledge, end_task)
+        finally:
+            # reset the internal parameters
+            self._current_task_name = _old_name
+            self._current_task_inst = _old_inst
+            self._current_task_proc = _old_proc
+
+    def _rehearse_network(
+        self,
+        actor: REH_ACTOR,
+        task_name_list: list[str],
+        knowledge: dict[str, Any] | None,
+        end_task: str | None,
+    ) -> REH_ACTOR:
+        """Rehearse a path, leaving the network at the last task rehearsed.
+
+        Args:
+            actor (Actor): The actor to perform the task rehearsal withs
+            task_name_list (list[str]): The tasks to be performed in order
+            knowledge (dict[str, Any] | None): Knowledge to give to the cloned/rehearsing actor
+            end_task (str | None): A task name to end on
+
+        Returns:
+            Actor: A copy of the original actor with state changes associated with the network.
+        """
         knowledge = {} if knowledge is None else knowledge
         num_tasks = len(task_name_list)
         # pre-clone the actor to get a hold of the new environment
@@ -189,10 +215,6 @@ class TaskNetwork:
                         f"Task {follow_on} not allowed after '{task_name}' in network"
                     )
             task_idx += 1
-        # reset the internal parameters
-        self._current_task_name = _old_name
-        self._current_task_inst = _old_inst
-        self._current_task_proc = _old_proc
         return new_actor
 
     def __repr__(self) -> str:
-- 
2.43.0


From de26848521e345704ceda402b6538056642a114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:21 +0000
Subject: [PATCH 32/84] fix: a clone has its own task queues

---
 src/upstage_des/actor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 74aa330..003428d 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1033,7 +1033,7 @@ Args:
         for name, data in knowledge.items():
             clone._knowledge[name] = copy(data)
 
-        clone._task_queue = copy(self._task_queue)
+        clone._task_queue = {name: list(queue) for name, queue in self._task_queue.items()}
         clone._task_networks = copy(self._task_networks)
 
         if clone._debug_logging:
-- 
2.43.0


From c381a2ad22930d40fa6eca8474e4407ecaa7cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:21 +0000
Subject: [PATCH 33/84] fix: clone actors with no_init or unset states

---
 src/upstage_des/actor.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 003428d..8940815 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -989,9 +989,16 @@ Args:
         new_env = MockEnvironment.mock(self.env) if new_env is None else new_env
 
         states: dict[str, Any] = {}
+        no_init_states: dict[str, Any] = {}
         for state in self.states:
             state_obj = self._state_defs[state]
-            if isinstance(state_obj, ResourceState):
+            if state_obj._allow_none_default and state not in self._mimic_states:
+                if state not in self.__dict__:
+                    # Nothing was set yet
+                    continue
+            if state_obj._no_init:
+                no_init_states[state] = copy(getattr(self, state))
+            elif isinstance(state_obj, ResourceState):
                 states[state] = state_obj._make_clone(self, getattr(self, state))
             elif isinstance(state_obj, _KeyValueBase):
                 states[state] = state_obj._make_clone(self)
@@ -1008,6 +1015,8 @@ Args:
             **states,
         )
         clone.env = new_env
+        # These aren't allowed in the init, and might be frozen
+        clone.__dict__.update(no_init_states)
 
         ignored_attributes = list(states.keys()) + ["env", "stage"]
 
-- 
2.43.0


From 18da97f82b2c80f7919ea6f1410e0612f1df44ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:22 +0000
Subject: [PATCH 34/84] fix: cloning works for actor classes with properties

---
 src/upstage_des/actor.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 8940815..8aae547 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1018,18 +1018,6 @@ Args:
         # These aren't allowed in the init, and might be frozen
         clone.__dict__.update(no_init_states)
 
-        ignored_attributes = list(states.keys()) + ["env", "stage"]
-
-        for attribute_name, attribute in self.__class__.__dict__.items():
-            if not any(
-                (
-                    attribute_name in ignored_attributes,
-                    attribute_name.startswith("_"),
-                    callable(attribute),
-                )
-            ):
-                setattr(clone, attribute_name, attribute)
-
         # update the state histories
         for state_name in self._state_defs:
             if state_name in self._state_histories:
-- 
2.43.0


From f27a1adcb2d2664c1fe42df052da4a15bc600023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:23 +0000
Subject: [PATCH 35/84] fix: a clone has the histories of recording functions
 and keys too

---
 src/upstage_des/actor.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 8aae547..f67fbec 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1018,10 +1018,12 @@ Args:
         # These aren't allowed in the init, and might be frozen
         clone.__dict__.update(no_init_states)
 
-        # update the state histories
-        for state_name in self._state_defs:
-            if state_name in self._state_histories:
-                clone._state_histories[state_name] = deepcopy(self._state_histories[state_name])
+        # update the state histories, including keyed values and recording functions
+        for history_name, history in self._state_histories.items():
+            if history_name in self._state_defs:
+                clone._state_histories[history_name] = deepcopy(history)
+            else:
+                clone._state_histories[history_name] = list(history)
 
         clone._knowledge = {}
         for name, data in self._knowledge.items():
-- 
2.43.0


From 398c4b1e66ad6bc41e3cf112976aaf6b7f05315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:54 +0000
Subject: [PATCH 36/84] fix: clones get their own stores and containers however
 those were made

---
 src/upstage_des/states.py | 45 ++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index cd34b7f..a1eb5e1 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -7,12 +7,14 @@
 
 from abc import abstractmethod
 from collections.abc import Callable, Iterable
-from copy import deepcopy
+from copy import copy, deepcopy
 from dataclasses import fields, replace
 from enum import Enum
+from types import MethodType
 from typing import TYPE_CHECKING, Any, Generic, Protocol, TypeVar, cast, runtime_checkable
 
 from simpy import Container, Environment, Store
+from simpy.core import BoundClass
 
 from upstage_des.base import SimulationError, UpstageError
 from upstage_des.data_types import CartesianLocation, GeodeticLocation
@@ -933,6 +935,32 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
 T = TypeVar("T", bound=Store | Container)
 
 
+def _clone_resource(resource: T) -> T:
+    """Make a separate resource with the same contents and nobody in its queues.
+
+    Args:
+        resource (T): The store or container to copy
+
+    Returns:
+        T: The copied store or container
+    """
+    new = copy(resource)
+    for name, value in vars(resource).items():
+        if isinstance(value, MethodType) and value.__self__ is resource:
+            # simpy puts bound event classes on the instance
+            delattr(new, name)
+        elif isinstance(value, list | dict | set):
+            setattr(new, name, copy(value))
+    BoundClass.bind_early(new)
+    if isinstance(new, Store | Container):
+        new.put_queue = new.PutQueue()
+        new.get_queue = new.GetQueue()
+    if isinstance(new, Container):
+        # This is a particularity of simpy containers
+        new._level = float(new.level)
+    return new
+
+
 class ResourceState(State, Generic[T]):
     """A State class for States that are meant to be Stores or Containers.
 
@@ -1060,8 +1088,6 @@ class ResourceState(State, Generic[T]):
 
         instance.__dict__[self.name] = resource_obj
         self._been_set.add(instance)
-        # remember what we did for cloning
-        instance.__dict__["_memory_for_" + self.name] = kwargs.copy()
 
         self._broadcast_change(instance, self.name, value)
 
@@ -1096,15 +1122,7 @@ class ResourceState(State, Generic[T]):
         Returns:
             T: The copied store or container
         """
-        base_class = type(copy)
-        memory: dict[str, Any] = instance.__dict__[f"_memory_for_{self.name}"]
-        new = base_class(instance.env, **memory)  # type: ignore [arg-type]
-        if isinstance(copy, Store) and isinstance(new, Store):
-            new.items = list(copy.items)
-        if isinstance(copy, Container) and isinstance(new, Container):
-            # This is a particularity of simpy containers
-            new._level = float(copy.level)
-        return cast(T, new)
+        return _clone_resource(copy)
 
 
 class CommunicationStore(ResourceState[Store]):
@@ -1538,6 +1556,9 @@ class MultiStoreState(DictionaryState[T]):
 
         super().__set__(instance, use)
 
+    def _make_clone(self, instance: "Actor") -> dict[str, T]:
+        return {k: _clone_resource(v) for k, v in instance.__dict__[self.name].items()}
+
     def has_default(self) -> bool:
         # Force the state to be defined.
         return False
-- 
2.43.0


From 1c479b4cff0afbc32bfd317f573d6ae9eb31ca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:30 +0000
Subject: [PATCH 37/84] fix: a clone's communication stores keep their modes

---
 src/upstage_des/states.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index a1eb5e1..52a8261 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -8,7 +8,7 @@
 from abc import abstractmethod
 from collections.abc import Callable, Iterable
 from copy import copy, deepcopy
-from dataclasses import fields, replace
+from dataclasses import dataclass, fields, replace
 from enum import Enum
 from types import MethodType
 from typing import TYPE_CHECKING, Any, Generic, Protocol, TypeVar, cast, runtime_checkable
@@ -1125,6 +1125,14 @@ class ResourceState(State, Generic[T]):
         return _clone_resource(copy)
 
 
+@dataclass
+class _ClonedComms:
+    """A cloned communication store, and the modes it is used for."""
+
+    store: Store
+    modes: list[str]
+
+
 class CommunicationStore(ResourceState[Store]):
     """A State class for communications inputs.
 
@@ -1192,6 +1200,8 @@ class CommunicationStore(ResourceState[Store]):
         modes: str | list[str] | None = self._modes
         if isinstance(value, dict) and "modes" in value:
             modes = value.pop("modes")
+        elif isinstance(value, _ClonedComms):
+            modes, value = value.modes, value.store
         super().__set__(instance, value)
         if modes is None:
             raise SimulationError(
@@ -1204,6 +1214,10 @@ class CommunicationStore(ResourceState[Store]):
             raise SimulationError("CommunicationsStore modes should be a list of strings.")
         instance.__dict__[self._modename] = set(modes)
 
+    def _make_clone(self, instance: "Actor", copy: Store) -> Any:
+        modes: set[str] = instance.__dict__[self._modename]
+        return _ClonedComms(super()._make_clone(instance, copy), sorted(modes))
+
 
 class _KeyValueBase(State):
     """A base state for holding key/value pairs.
-- 
2.43.0


From 23e3cd378445ed9741d7f2f7bfda82244975e6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:31 +0000
Subject: [PATCH 38/84] fix: a communication store leaves the dictionary it was
 given alone

---
 src/upstage_des/states.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 52a8261..26d4fde 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1199,7 +1199,8 @@ class CommunicationStore(ResourceState[Store]):
         # See if the instance has any specific mode data to find.
         modes: str | list[str] | None = self._modes
         if isinstance(value, dict) and "modes" in value:
-            modes = value.pop("modes")
+            modes = value["modes"]
+            value = {k: v for k, v in value.items() if k != "modes"}
         elif isinstance(value, _ClonedComms):
             modes, value = value.modes, value.store
         super().__set__(instance, value)
-- 
2.43.0


From 35637611cee72147ff0c6f2501739552303cffef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:32 +0000
Subject: [PATCH 39/84] fix: resource states tell actors apart by identity, not
 equality

---
 src/upstage_des/states.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 26d4fde..5fa21f3 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1037,7 +1037,6 @@ class ResourceState(State, Generic[T]):
             valid_types=valid_types,
         )
         self._default_kwargs = default_kwargs.copy() if default_kwargs is not None else {}
-        self._been_set: set[Actor] = set()
 
     def __set__(self, instance: "Actor", value: dict | Any) -> None:
         """Set the state value.
@@ -1046,7 +1045,7 @@ class ResourceState(State, Generic[T]):
             instance (Actor): The actor instance
             value (dict | Any): Either a dictionary of resource data OR an actual resource
         """
-        if instance in self._been_set:
+        if self.name in instance.__dict__:
             raise UpstageError(
                 f"State '{self}' on '{instance}' has already been created "
                 "It cannot be changed once set!"
@@ -1057,7 +1056,6 @@ class ResourceState(State, Generic[T]):
             if not isinstance(value, self._types):
                 raise UpstageError(f"Resource object: '{value}' is not an expected type.")
             instance.__dict__[self.name] = value
-            self._been_set.add(instance)
             return
 
         resource_type = value.get("kind", self._default)
@@ -1087,8 +1085,6 @@ class ResourceState(State, Generic[T]):
             raise UpstageError(f"Exception in ResourceState init: {e}")
 
         instance.__dict__[self.name] = resource_obj
-        self._been_set.add(instance)
-
         self._broadcast_change(instance, self.name, value)
 
     def _set_default(self, instance: "Actor") -> None:
-- 
2.43.0


From 515f6999984650601b2aa501a6009024fff27eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:32 +0000
Subject: [PATCH 40/84] fix: default states are made in the order they were
 declared

---
 src/upstage_des/actor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index f67fbec..2e1d614 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -76,7 +76,7 @@ class Actor(SettableEnv, NamedUpstageEntity):
             else:
                 raise UpstageError(f"Input to {self} was not expected: {state}={value}")
         exist = set(self._state_defs.keys())
-        unseen = exist - seen
+        unseen = [name for name in self._state_defs if name not in seen]
         for state_name in unseen:
             _state = self._state_defs[state_name]
             if _state.has_default():
-- 
2.43.0


From 923df2a117898392ec9edee689c0a5fd761400b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:33 +0000
Subject: [PATCH 41/84] fix: cloning an actor does not add the clone to the
 simulation's entities

---
 src/upstage_des/actor.py |  7 +++++++
 src/upstage_des/base.py  | 17 +++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 2e1d614..0976662 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -264,6 +264,11 @@ Args:
             return
         ans.append(self)
 
+    def _remove_special_group(self) -> None:
+        """Remove self from the actor context list."""
+        ans = SPECIAL_ENTITY_CONTEXT_VAR.get().actors
+        ans[:] = [actor for actor in ans if actor is not self]
+
     def _lock_state(self, *, state: str, task: Task) -> None:
         """Lock one of the actor's states by a given task.
 
@@ -1015,6 +1020,8 @@ Args:
             **states,
         )
         clone.env = new_env
+        # The clone is not part of the simulation
+        clone._remove_entity()
         # These aren't allowed in the init, and might be frozen
         clone.__dict__.update(no_init_states)
 
diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index af865a7..2d3a475 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -421,6 +421,23 @@ class NamedUpstageEntity(UpstageBase):
             self._add_to_group(group_name)
         self._add_special_group()
 
+    def _remove_special_group(self) -> None:
+        """Remove from a special group.
+
+        Sub-classable for type help.
+        """
+        ...
+
+    def _remove_entity(self) -> None:
+        """Remove self from all the entity groups it is in."""
+        groups = ENTITY_CONTEXT_VAR.get({})
+        for group_name in self._entity_groups:
+            if group_name in groups:
+                groups[group_name][:] = [e for e in groups[group_name] if e is not self]
+                if not groups[group_name]:
+                    del groups[group_name]
+        self._remove_special_group()
+
     def __init__(self, *args: Any, **kwargs: Any) -> None:
         """Init the named entity."""
         super().__init__(*args, **kwargs)
-- 
2.43.0


From 815c1849e6c7dff738635bdec5993f2727628668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:34 +0000
Subject: [PATCH 42/84] fix: a rehearsing actor's detectability is no matter of
 the motion manager

---
 src/upstage_des/states.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 5fa21f3..5af8d11 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -376,6 +376,8 @@ class DetectabilityState(State[bool]):
         if self.name not in instance.__dict__:
             was_set = False
         super().__set__(instance, value)
+        if getattr(instance, "_is_rehearsing", False):
+            return
         if hasattr(instance.stage, "motion_manager") and was_set:
             mgr = instance.stage.motion_manager
             if not value:
-- 
2.43.0


From ba021bf47f2f605c3cf48a526fc7216946e7d911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:26 +0000
Subject: [PATCH 43/84] fix: rehearsing nested events completes their members
 too

---
 src/upstage_des/events.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 67be8de..ec50f9d 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -382,6 +382,7 @@ class MultiEvent(BaseEvent):
                 )
         self.events = events
         self._simpy_event = None
+        self._event_times: dict[BaseEvent, float] = {}
 
     @staticmethod
     def aggregation_function(times: list[float]) -> float:
@@ -449,13 +450,7 @@ class MultiEvent(BaseEvent):
             return_sub_events (bool, Optional): Whether to return all times or not.
                 Defaults to False.
         """
-        event_times = {
-            event: event.calculate_time_to_complete()
-            for event in self.events
-            if isinstance(event, BaseEvent)
-        }
-
-        time_to_complete = self.aggregation_function(list(event_times.values()))
+        time_to_complete, _ = self.calc_time_to_complete_with_sub()
 
         return time_to_complete
 
@@ -471,7 +466,7 @@ class MultiEvent(BaseEvent):
             if isinstance(event, BaseEvent)
         }
         time_to_complete = self.aggregation_function(list(event_times.values()))
-
+        self._event_times = event_times
         return time_to_complete, event_times
 
     def _start_rehearsal(self) -> None:
@@ -487,6 +482,17 @@ class MultiEvent(BaseEvent):
                 )
             event._start_rehearsal()
 
+    def _finish_sub_rehearsals(self, time: float) -> None:
+        """Finish rehearsing the sub-events, at any depth.
+
+        Args:
+            time (float): The time the whole rehearsal takes.
+        """
+        for event, event_end_time in self._event_times.items():
+            if isinstance(event, MultiEvent):
+                event._finish_sub_rehearsals(time)
+            event._finish_rehearsal(complete=event_end_time <= time)
+
     def rehearse(self) -> tuple[float, tyAny]:
         """Run the event in 'trial' mode without changing the real environment.
 
@@ -499,10 +505,8 @@ class MultiEvent(BaseEvent):
         self._start_rehearsal()
 
         event_response = None
-        time_to_finish, event_times = self.calc_time_to_complete_with_sub()
-
-        for event, event_end_time in event_times.items():
-            event._finish_rehearsal(complete=event_end_time <= time_to_finish)
+        time_to_finish, _ = self.calc_time_to_complete_with_sub()
+        self._finish_sub_rehearsals(time_to_finish)
 
         self._finish_rehearsal(complete=True)
 
-- 
2.43.0


From 0201da844f98e883bcc3527825257cbddbf51e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:27 +0000
Subject: [PATCH 44/84] fix: events count as complete once rehearsed, until the
 rehearsal is over

---
 src/upstage_des/events.py   | 20 ++++++++++++++++++--
 src/upstage_des/routines.py |  4 ++++
 src/upstage_des/task.py     |  9 ++++++++-
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index ec50f9d..092159b 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -130,6 +130,9 @@ class BaseEvent(UpstageBase):
             )
         self._done_rehearsing = complete
 
+    def _leave_rehearsal(self) -> None:
+        """The rehearsal this event was used in is over."""
+
     def rehearse(self) -> tuple[float, tyAny | None]:
         """Run the event in 'rehearsal' mode without changing the real environment.
 
@@ -482,6 +485,12 @@ class MultiEvent(BaseEvent):
                 )
             event._start_rehearsal()
 
+    def _leave_rehearsal(self) -> None:
+        """The rehearsal these events were used in is over."""
+        for event in self.events:
+            if isinstance(event, BaseEvent):
+                event._leave_rehearsal()
+
     def _finish_sub_rehearsals(self, time: float) -> None:
         """Finish rehearsing the sub-events, at any depth.
 
@@ -834,7 +843,7 @@ class Event(BaseEvent):
         Returns:
             SIM.Event
         """
-        if self.is_complete():
+        if self._event.processed:
             if self._auto_reset:
                 self.reset()
             else:
@@ -847,7 +856,7 @@ class Event(BaseEvent):
         Args:
             **kwargs (Any): key:values to store as payload.
         """
-        if self.is_complete() or self._event.triggered:
+        if self._event.triggered:
             raise SimulationError("Event has already completed")
         self._payload = kwargs
         self._event.succeed()
@@ -858,6 +867,8 @@ class Event(BaseEvent):
         Returns:
             bool
         """
+        if self.rehearsing:
+            return self.done_rehearsing
         return self._event.processed
 
     def get_payload(self) -> dict[str, tyAny]:
@@ -896,3 +907,8 @@ class Event(BaseEvent):
         """
         time_advance, _ = super().rehearse()
         return time_advance, PLANNING_FACTOR_OBJECT
+
+    def _leave_rehearsal(self) -> None:
+        """The event may be a real one that outlives the rehearsal."""
+        self._rehearsing = False
+        self._done_rehearsing = False
diff --git a/src/upstage_des/routines.py b/src/upstage_des/routines.py
index 1a6ac68..43b419c 100644
--- a/src/upstage_des/routines.py
+++ b/src/upstage_des/routines.py
@@ -80,9 +80,13 @@ class Routine(SettableEnv):
             tuple[float, Any | None]: Time and value of rehearsal.
         """
         time = 0.0
+        rehearsed: list[BaseEvent] = []
         for evt in self._run():
             t, _ = evt.rehearse()
             time += t
+            rehearsed.append(evt)
+        for evt in rehearsed:
+            evt._leave_rehearsal()
         return time, None
 
 
diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index e0e628d..c5c862c 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -386,17 +386,22 @@ class Task(SettableEnv):
         """
         _old_env = self.env
         _old_rehearsing = self._rehearsing
+        rehearsed: list[BaseEvent | Routine] = []
         try:
-            return self._rehearse(actor, knowledge, cloned_actor, **kwargs)
+            return self._rehearse(actor, knowledge, cloned_actor, rehearsed, **kwargs)
         finally:
             self.env = _old_env
             self._rehearsing = _old_rehearsing
+            for event in rehearsed:
+                if isinstance(event, BaseEvent):
+                    event._leave_rehearsal()
 
     def _rehearse(
         self,
         actor: REH_ACTOR,
         knowledge: dict[str, Any] | None,
         cloned_actor: bool,
+        rehearsed: list[BaseEvent | Routine],
         **kwargs: Any,
     ) -> REH_ACTOR:
         """Do the rehearsal, leaving the task set up for rehearsing.
@@ -405,6 +410,7 @@ class Task(SettableEnv):
             actor (Actor): The actor to rehearse in the task
             knowledge (dict[str, Any] | None): Knowledge to add to the actor.
             cloned_actor (bool): If the actor is a clone or not.
+            rehearsed (list[BaseEvent | Routine]): Filled with what was rehearsed
             kwargs (Any): Optional args to send to the task.
 
         Returns:
@@ -434,6 +440,7 @@ class Task(SettableEnv):
                     if isinstance(next_event, Process):
                         raise SimulationError(msg + " cannot be a process during rehearsal.")
                     raise SimulationError(msg + " must be a subclass of BaseEvent or Routine.")
+                rehearsed.append(next_event)
                 time_advance, returned_item = next_event.rehearse()
                 mocked_env.now += time_advance
 
-- 
2.43.0


From 1ac05aa3d898aabe8f80f81be49a8214185174d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:46 +0000
Subject: [PATCH 45/84] fix: a rehearsing task cannot activate a mimic state
 through a helper

---
 src/upstage_des/actor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 0976662..dbcb5fe 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -484,7 +484,7 @@ Args:
             task (Task): The task during which the state is mimiced.
         """
         caller = get_caller_object()
-        if isinstance(caller, Task) and caller._rehearsing:
+        if (isinstance(caller, Task) and caller._rehearsing) or getattr(task, "_rehearsing", False):
             raise UpstageError("Mimic state activated on rehearsal. This is unsupported/unstable")
         if self_state in self._mimic_states:
             raise UpstageError(f"{self_state} already mimicked")
-- 
2.43.0


From 60ae7a0311ef6948dfa49215ced98a8745d2e277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:19 +0000
Subject: [PATCH 46/84] fix: a routed message whose destination is a failed
 node is dropped instead of retried forever

---
 src/upstage_des/communications/routing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/communications/routing.py b/src/upstage_des/communications/routing.py
index 4ea0d91..abe05d9 100644
--- a/src/upstage_des/communications/routing.py
+++ b/src/upstage_des/communications/routing.py
@@ -265,9 +265,11 @@ class RoutingTableCommsManager(RoutingCommsManagerBase):
         u, v = source.name, dest.name
         if u not in self._network:
             return None
+        ignore_names = [x.name for x in ignore_nodes] if ignore_nodes is not None else []
+        if v in ignore_names:
+            return None
         if v in self._network[u]:
             return dest
-        ignore_names = [x.name for x in ignore_nodes] if ignore_nodes is not None else []
         net = {k: v - set(ignore_names) for k, v in self._network.items() if k not in ignore_names}
         path = _shortest_path(net, u, v)
         if not path:
-- 
2.43.0


From 05531608adf46af7dc2707453ed3fde77632ff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:20 +0000
Subject: [PATCH 47/84] fix: the choice between equally short routes does not
 depend on the hash seed

---
 src/upstage_des/communications/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/communications/routing.py b/src/upstage_des/communications/routing.py
index abe05d9..533467a 100644
--- a/src/upstage_des/communications/routing.py
+++ b/src/upstage_des/communications/routing.py
@@ -21,7 +21,7 @@ def _shortest_path(network: dict[str, set[str]], start: str, goal: str) -> list[
 
     while queue:
         node, path = queue.popleft()
-        for neighbor in network.get(node, set()):
+        for neighbor in sorted(network.get(node, set())):
             if neighbor == goal:
                 return path + [neighbor]
             if neighbor not in visited:
-- 
2.43.0


From 5cc677f648a263351911fc885835f1e2cf9f1648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:19 +0000
Subject: [PATCH 48/84] fix: a leg of a path that misses a sensor counts with
 its time for the legs after it

---
 src/upstage_des/motion/cartesian_model.py | 2 +-
 src/upstage_des/motion/geodetic_model.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/motion/cartesian_model.py b/src/upstage_des/motion/cartesian_model.py
index a58c5d7..8dc19e5 100644
--- a/src/upstage_des/motion/cartesian_model.py
+++ b/src/upstage_des/motion/cartesian_model.py
@@ -126,7 +126,7 @@ def cartesian_linear_intersection(
         speed,
     )
     if not intersections or min(times) > path_time:
-        return [], [], ["BAD", "BAD"], -1.0
+        return [], [], ["BAD", "BAD"], path_time
 
     # filter out intersections beyond the path length
     idxs = sorted(range(len(times)), key=lambda i: times[i])
diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index a01ab3d..aa717f3 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -75,7 +75,7 @@ def subdivide_intersection(
     )
 
     if not intersect_locs:
-        return [], [], ["Bad", "Bad"], 0.0
+        return [], [], ["Bad", "Bad"], path_time
 
     # convert the data to a more useful format
     intersections: list[GeodeticLocation] = []
@@ -152,7 +152,7 @@ def analytical_intersection(
     # no intersection
     if point_results is None:
         # return matches subdivide_intersection results
-        return [], [], ["Bad", "Bad"], -1.0
+        return [], [], ["Bad", "Bad"], path_time
 
     points, distances = point_results
     # get points, times, and types
-- 
2.43.0


From c9d42ecae3df97fe2aa5f825a817b1ef2a6202d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:20 +0000
Subject: [PATCH 49/84] fix: paths that start, end, turn on or touch the edge
 of a sensor's range

---
 src/upstage_des/motion/cartesian_model.py | 38 +++++++++++++----------
 src/upstage_des/motion/motion.py          |  6 ++--
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/upstage_des/motion/cartesian_model.py b/src/upstage_des/motion/cartesian_model.py
index 8dc19e5..0ead4c1 100644
--- a/src/upstage_des/motion/cartesian_model.py
+++ b/src/upstage_des/motion/cartesian_model.py
@@ -117,6 +117,10 @@ def cartesian_linear_intersection(
         the_times = [0, path_time]
         return inters, the_times, ["START_INSIDE", "END_INSIDE"], path_time
 
+    # a leg without a length stays outside
+    if path_dist == 0:
+        return [], [], ["BAD", "BAD"], path_time
+
     sensor_location_tup = (sensor_location.x, sensor_location.y, sensor_location.z)
     intersections, times = ray_intersection(
         start_tup,
@@ -125,26 +129,26 @@ def cartesian_linear_intersection(
         sensor_radius,
         speed,
     )
-    if not intersections or min(times) > path_time:
+    if start_inside and not times:
+        # the start is on the edge and the motion is away from it
+        return [start, start], [0.0, 0.0], ["START_INSIDE", "EXIT"], path_time
+    if finish_inside and (not times or (len(times) > 1 and times[0] > path_time)):
+        # only the finish is on the edge
+        return [finish, finish], [path_time, path_time], ["ENTER", "END_INSIDE"], path_time
+    if not times or (not start_inside and not finish_inside and times[0] > path_time):
         return [], [], ["BAD", "BAD"], path_time
 
-    # filter out intersections beyond the path length
-    idxs = sorted(range(len(times)), key=lambda i: times[i])
-    inters = [CartesianLocation(*intersections[i]) for i in idxs if times[i] <= path_time]
-    times = [times[i] for i in idxs if times[i] <= path_time]
+    # A start or finish on the edge counts as inside, and is judged by distance.
+    # The crossings may be off by rounding, so they are limited to this leg.
+    entry = (0.0, start)
+    if not start_inside and len(times) > 1:
+        entry = (times[0], CartesianLocation(*intersections[0]))
+    leave = (path_time, finish)
+    if not finish_inside and times[-1] <= path_time:
+        leave = (times[-1], CartesianLocation(*intersections[-1]))
     type_start = "START_INSIDE" if start_inside else "ENTER"
     type_end = "END_INSIDE" if finish_inside else "EXIT"
-    if start_inside:
-        inters = [start] + inters
-        times = [0] + times
-    if finish_inside:
-        inters = inters + [finish]
-        times = times + [path_time]
-    if len(inters) != 2:
-        raise MotionAndDetectionError(
-            f"There should be two intersections, not {len(inters)} ({inters})"
-        )
-    if len(times) != 2:
-        raise MotionAndDetectionError("There should be two time intersections")
+    inters = [entry[1], leave[1]]
+    times = [entry[0], leave[0]]
 
     return inters, times, [type_start, type_end], path_time
diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 3d670df..524749c 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -342,10 +342,8 @@ class SensorMotionManager(UpstageBase):
         if second_kind != "EXIT":
             return None
 
-        end_time_from_now = second_time - self.env.now
-        if end_time_from_now <= 0:
-            raise MotionAndDetectionError("Detection end time is less than detection start")
-
+        # The motion can touch the edge at one instant only
+        end_time_from_now = max(second_time - self.env.now, 0.0)
         try:
             yield self.env.timeout(end_time_from_now)
         except Interrupt:
-- 
2.43.0


From e8f1d76912986209a7f762b82bb0ec7d91c29a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:37 +0000
Subject: [PATCH 50/84] fix: sensors learn of an undetectable mover in the
 order they were added

---
 src/upstage_des/motion/motion.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 524749c..9340844 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -156,12 +156,13 @@ class SensorMotionManager(UpstageBase):
             mover (Actor): The mover.
         """
         if mover in self._in_view:
-            for sensor in self._in_view[mover]:
+            in_view = self._in_view.pop(mover)
+            # Notify in the order the sensors were added
+            for sensor in [s for s in self._sensors if s in in_view]:
                 # This will cause some old data to stick around, but that's
                 # instead of making new events to clear it out and then having
                 # to end those clearing events if this happens
                 sensor.entity_exited_range(mover)
-            del self._in_view[mover]
         # It is unsure if the user will stop the motion via a task first
         # or change detectability first
         self._stop_mover(mover, from_not_detectable=True)
-- 
2.43.0


From daad461c72293c1e7786d9a2db7bab08bf9b56df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:38 +0000
Subject: [PATCH 51/84] fix: a notified sensor can make the mover undetectable

---
 src/upstage_des/motion/motion.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 9340844..30b1ef0 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -138,7 +138,8 @@ class SensorMotionManager(UpstageBase):
         # in case a new sensor pops up
         if mover in self._events:
             for _, proc in self._events.get(mover, []):
-                if proc.is_alive:
+                # A sensor being notified may cause the mover to stop
+                if proc.is_alive and proc is not self.env.active_process:
                     proc.interrupt()
             del self._events[mover]
 
@@ -337,10 +338,11 @@ class SensorMotionManager(UpstageBase):
                 self._end_notify(mover, sensor, "before entry")
                 return None
 
-            sensor.entity_entered_range(mover)
             self._add_to_view(mover, sensor)
+            sensor.entity_entered_range(mover)
 
-        if second_kind != "EXIT":
+        # The sensor may have made the mover undetectable
+        if second_kind != "EXIT" or sensor not in self._in_view.get(mover, set()):
             return None
 
         # The motion can touch the edge at one instant only
@@ -351,8 +353,8 @@ class SensorMotionManager(UpstageBase):
             self._end_notify(mover, sensor, "before exit")
             return None
 
-        sensor.entity_exited_range(mover)
         self._remove_from_view(mover, sensor)
+        sensor.entity_exited_range(mover)
         return None
 
     def _schedule(
-- 
2.43.0


From 7f80338355018522fb300ea031220768849ea0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:39 +0000
Subject: [PATCH 52/84] fix: a mover made undetectable at the moment it starts
 inside a range is not reported

---
 src/upstage_des/motion/motion.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 30b1ef0..1260269 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -327,6 +327,11 @@ class SensorMotionManager(UpstageBase):
         notify_time_from_now = first_time - self.env.now
 
         if first_kind == "START_INSIDE" or notify_time_from_now <= 0:
+            detect_state = self._test_detect(mover)
+            if detect_state is None or not getattr(mover, detect_state):
+                # It became undetectable before this could begin
+                self._end_notify(mover, sensor, "before entry")
+                return None
             was_in = self._add_to_view(mover, sensor)
             if not was_in:
                 sensor.entity_entered_range(mover)
-- 
2.43.0


From 9b9ccfefc15104c72415451674f766e0216dcf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:40 +0000
Subject: [PATCH 53/84] fix: a mover made undetectable and detectable again
 while moving can stop

---
 src/upstage_des/motion/motion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 1260269..303a519 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -195,6 +195,8 @@ class SensorMotionManager(UpstageBase):
                 "SensorMotionManager."
             )
             warn(msg, UserWarning)
+            # The motion will still be stopped later
+            self._movers.setdefault(mover, (0.0, [], 0.0))
 
     # TODO: remove sensor or 'not active'?
 
-- 
2.43.0


From 80cf7a6ac73a04f48e8d1a2ad8ab611d4ec640f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:03 +0000
Subject: [PATCH 54/84] fix: the end of a cartesian path can be read when the
 clock is large

The rounding of the clock makes the elapsed time exceed the travel time by
more than the fixed 1e-12, so a task that waits exactly the travel time failed.
---
 src/upstage_des/states.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 5af8d11..f5b9c18 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -603,12 +603,16 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
                     [data["value"]] + waypoints,
                 )
 
-    def _get_index(self, path_data: dict[str, Any], time_elapsed: float) -> tuple[int, float]:
+    def _get_index(
+        self, path_data: dict[str, Any], time_elapsed: float, now: float = 0.0
+    ) -> tuple[int, float]:
         """Find out how far along waypoints the state is.
 
         Args:
             path_data (dict[str, Any]): Data about the movement path
             time_elapsed (float): Time spent moving
+            now (float, optional): Current time, which limits the precision of the
+                elapsed time. Defaults to 0.0.
 
         Returns:
             int: index in waypoints
@@ -616,9 +620,10 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
         """
         sum_t = 0.0
         t: float
+        tolerance = max(1e-12, 1e-14 * now)
         for i, t in enumerate(path_data["times"]):
             sum_t += t
-            if time_elapsed <= (sum_t + 1e-12):
+            if time_elapsed <= (sum_t + tolerance):
                 return i, sum_t - t
         raise SimulationError(
             "CartesianLocation active state exceeded travel time: "
@@ -638,7 +643,7 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
         current_time: float = data["now"]
         path_start_time: float = data["started_at"]
         elapsed = current_time - path_start_time
-        idx, _ = self._get_index(data["path_data"], elapsed)
+        idx, _ = self._get_index(data["path_data"], elapsed, current_time)
         return list(data["waypoints"][idx:])
 
     def _active(self, instance: "Actor") -> CartesianLocation | None:
@@ -673,7 +678,7 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
             self._do_record(instance, return_value)
         else:
             # Get the location along the waypoint path
-            wypt_index, wypt_start = self._get_index(path_data, elapsed)
+            wypt_index, wypt_start = self._get_index(path_data, elapsed, current_time)
             time_along = elapsed - wypt_start
             path_time: float = path_data["times"][wypt_index]
             path_start: CartesianLocation = path_data["starts"][wypt_index]
-- 
2.43.0


From 7cc663c265664af675d389d72746310d81e2f80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:04 +0000
Subject: [PATCH 55/84] fix: a path that turns on the edge of a range does not
 enter it twice

---
 src/upstage_des/motion/motion.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 303a519..7fcc98b 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -247,6 +247,15 @@ class SensorMotionManager(UpstageBase):
 
                     inter_data.pop()
                     continue
+                at = start_time + elapsed_time + t
+                if (
+                    inter_data
+                    and inter_data[-1][0] == "EXIT"
+                    and at - inter_data[-1][1] <= max(1e-9, 1e-14 * at)
+                ):
+                    # the path turns on the edge, and rounding placed the turn outside
+                    inter_data.pop()
+                    continue
                 inter_data.append((typ, start_time + elapsed_time + t, inter))
             elapsed_time += path_time
 
-- 
2.43.0


From a4f77a4d6a4973c139068135018334773797d562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:23 +0000
Subject: [PATCH 56/84] fix: great circle interpolation is right for paths
 along the equator at longitude 0

The end parameter was solved from the x coordinates only, which has no or a
wrong solution where x is largest.
---
 src/upstage_des/geography/spherical.py | 33 ++++++++------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index efcd3e7..e5bdc6e 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -4,9 +4,9 @@
 # See the LICENSE file in the project root for complete license terms and disclaimers.
 """Geographical math using spherical coordinates for Earth."""
 
-from math import acos, asin, atan, atan2, cos, degrees, radians, sin, sqrt
+from math import acos, asin, atan2, cos, degrees, radians, sin, sqrt
 
-from upstage_des.math_utils import _vector_dot
+from upstage_des.math_utils import _vector_dot, _vector_norm
 from upstage_des.units import unit_convert
 
 from .conversions import SphericalConversions, spherical_radius
@@ -202,28 +202,15 @@ class Spherical(SphericalConversions):
         # We keep the earth radius to be 1 since we're interpolating along radians only
         v1 = cls._ll2cart(start[0], start[1])
         v2 = cls._ll2cart(end[0], end[1])
-        # solve for the parameter value that equals the end point
+        # the part of v2 that is perpendicular to v1 gives the direction of travel
         d = _vector_dot(v1, v2)
-        common = sqrt(-1 / ((d - 1) * (d + 1)))
-        alpha, beta = -d * common, common
-        a, _, _ = v1
-        d, _, _ = v2
-        lead = a * alpha + beta * d
-        sqrt_inner = a**2 * alpha**2 + a**2 + 2 * a * alpha * beta * d + beta**2 * d**2 - d**2
-        if sqrt_inner < 0:
-            raise ValueError("geo_linspace fails due to negative sqrt")
-        t = 2 * atan((lead + sqrt(sqrt_inner)) / (a + d))
-        W = tuple([alpha * x + beta * y for x, y in zip(v1, v2)])
-        assert len(W) == 3
-        W = (W[0], W[1], W[2])
-        # test that the t is right
-        ct, st = cos(t), sin(t)
-        end_pt = tuple([ct * x + st * w for x, w in zip(v1, W)])
-        assert len(end_pt) == 3
-        end_pt = (end_pt[0], end_pt[1], end_pt[2])
-        is_close = all(abs(a - b) <= 1e-8 for a, b in zip(end_pt, v2))
-        if not is_close:
-            t = 2 * atan((lead - sqrt(sqrt_inner)) / (a + d))
+        side = [y - d * x for x, y in zip(v1, v2)]
+        side_length = _vector_norm(side)
+        if side_length == 0:
+            raise ValueError("No great circle between a point and itself or its antipode.")
+        W = tuple([s / side_length for s in side])
+        # solve for the parameter value that equals the end point
+        t = atan2(side_length, d)
 
         ts = [(t / num_segments) * i for i in range(0, num_segments + 1)]
         v_cos = [tuple(cos(t) * v for v in v1) for t in ts]
-- 
2.43.0


From cd5164384368bc15d20efa57bd888ae45ef9f394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:24 +0000
Subject: [PATCH 57/84] fix: ecef_linspace no longer fails to unpack its points

---
 src/upstage_des/geography/spherical.py | 4 ++--
 src/upstage_des/geography/wgs84.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index e5bdc6e..2edff5c 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -437,10 +437,10 @@ class Spherical(SphericalConversions):
         """
         start = _convert_geo(start)
         finish = _convert_geo(finish)
-        lats, lons = cls.geo_linspace(start, finish, num_segments=segments)
+        latlons = cls.geo_linspace(start, finish, num_segments=segments)
         delta_alt = finish_alt - start_alt
         alts = [start_alt + delta_alt * i / segments for i in range(segments + 1)]
-        lla = [(lat, lon, alt) for lat, lon, alt in zip(lats, lons, alts)]
+        lla = [(lat, lon, alt) for (lat, lon), alt in zip(latlons, alts)]
         return cls.lla2ecef(lla)
 
     @classmethod
diff --git a/src/upstage_des/geography/wgs84.py b/src/upstage_des/geography/wgs84.py
index 662b52c..33520bf 100644
--- a/src/upstage_des/geography/wgs84.py
+++ b/src/upstage_des/geography/wgs84.py
@@ -354,10 +354,10 @@ class WGS84(WGS84Conversions):
         """
         start = _convert_geo(start)
         finish = _convert_geo(finish)
-        lats, lons = cls.geo_linspace(start, finish, num_segments=segments)
+        latlons = cls.geo_linspace(start, finish, num_segments=segments)
         delta_alt = finish_alt - start_alt
         alts = [start_alt + delta_alt * i / segments for i in range(segments + 1)]
-        lla = [(lat, lon, alt) for lat, lon, alt in zip(lats, lons, alts)]
+        lla = [(lat, lon, alt) for (lat, lon), alt in zip(latlons, alts)]
         return cls.lla2ecef(lla)
 
     @classmethod
-- 
2.43.0


From 49eca3b7fb995e5188e238c10bfbce1968992717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:25 +0000
Subject: [PATCH 58/84] fix: courses due north or south, or from the sensor's
 own position, do not fail

---
 src/upstage_des/motion/great_circle_calcs.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/motion/great_circle_calcs.py b/src/upstage_des/motion/great_circle_calcs.py
index ac940e2..48ece6c 100644
--- a/src/upstage_des/motion/great_circle_calcs.py
+++ b/src/upstage_des/motion/great_circle_calcs.py
@@ -47,13 +47,15 @@ def get_course_rad(point1: GeodeticLocation, point2: GeodeticLocation) -> float:
     tcl: float
 
     d = get_dist_rad(point1, point2)
-
-    if sin(point2.lon - point1.lon) < 0:
-        tcl = acos((sin(point2.lat) - sin(point1.lat) * cos(d)) / (sin(d) * cos(point1.lat)))
-    else:
-        tcl = 2.0 * pi - acos(
-            (sin(point2.lat) - sin(point1.lat) * cos(d)) / (sin(d) * cos(point1.lat))
-        )
+    if d == 0:
+        # any course will do
+        return 0.0
+
+    # rounding can make this exceed one for north and south courses
+    cos_tcl = (sin(point2.lat) - sin(point1.lat) * cos(d)) / (sin(d) * cos(point1.lat))
+    tcl = acos(max(-1.0, min(1.0, cos_tcl)))
+    if sin(point2.lon - point1.lon) >= 0:
+        tcl = 2.0 * pi - tcl
 
     return tcl
 
-- 
2.43.0


From c5eacd207e0b4395e3acbb44f5c1e3906c557528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:26 +0000
Subject: [PATCH 59/84] fix: geodetic paths above a sensor's range and legs
 without a length do not fail

---
 src/upstage_des/motion/geodetic_model.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index aa717f3..e84c92c 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -137,17 +137,26 @@ def analytical_intersection(
     # modify the sensor's radius to account for the altitude of the mover
     average_path_height = (start.alt + finish.alt) / 2.0
     average_path_height_dist_units = unit_convert(average_path_height, altitude_units, dist_units)
+    path_dist = get_dist_rad(start_rad, finish_rad)
+    path_time = (path_dist * earth_rad) / speed
+    if abs(average_path_height_dist_units) > sensor_radius:
+        # the path is too high for the sensor
+        return [], [], ["Bad", "Bad"], path_time
     adjusted_sensor_radius = sqrt(sensor_radius**2 - average_path_height_dist_units**2)
     sensor_radius_rad = adjusted_sensor_radius / earth_rad
 
+    # a leg without a length has no great circle
+    if path_dist == 0:
+        if get_dist_rad(sensor_location_rad, start_rad) < sensor_radius_rad:
+            return [start, finish], [0.0, 0.0], ["START_INSIDE", "END_INSIDE"], path_time
+        return [], [], ["Bad", "Bad"], path_time
+
     # Note: some calcs may be doubled here, further speed up potentially by optimizing this
     point_results = get_great_circle_points(
         start_rad, finish_rad, sensor_location_rad, sensor_radius_rad
     )
     dist_start = get_dist_rad(sensor_location_rad, start_rad)
     dist_finish = get_dist_rad(sensor_location_rad, finish_rad)
-    path_dist = get_dist_rad(start_rad, finish_rad)
-    path_time = (path_dist * earth_rad) / speed
 
     # no intersection
     if point_results is None:
-- 
2.43.0


From a60724516fe47a5bd33e449ada17b368614eb61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:27 +0000
Subject: [PATCH 60/84] fix: the altitude of a geodetic crossing divided by the
 path length twice

---
 src/upstage_des/motion/geodetic_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index e84c92c..b5e7d47 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -179,7 +179,7 @@ def analytical_intersection(
         types.append("ENTER")
 
         # estimate intersection altitude assuming linear change
-        alt_1 = start.alt + (distances[0] / path_dist) * alt_change_per_dist
+        alt_1 = start.alt + distances[0] * alt_change_per_dist
         # adjust distance to account for average altitude from start to first intersection
         d1_m = distances[0] * (
             earth_rad + unit_convert(0.5 * (start.alt + alt_1), altitude_units, dist_units)
@@ -204,7 +204,7 @@ def analytical_intersection(
         types.append("EXIT")
 
         # estimate intersection altitude assuming linear change
-        alt_2 = start.alt + (distances[1] / path_dist) * alt_change_per_dist
+        alt_2 = start.alt + distances[1] * alt_change_per_dist
         # adjust distance to account for average altitude from start to first intersection
         d2_m = distances[1] * (
             earth_rad + unit_convert(0.5 * (start.alt + alt_2), altitude_units, dist_units)
-- 
2.43.0


From 0c049fadbd12ba0da1a9c5fe7a90069eb51fe98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:40 +0000
Subject: [PATCH 61/84] fix: stepped motion ignores an entity that it does not
 consider any more

Making a stopped mover detectable, or running a particular rate for it, raised a KeyError.
---
 src/upstage_des/motion/stepped_motion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index 150e394..5116d39 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -159,6 +159,8 @@ class SteppedMotionManager(UpstageBase):
         sensor_locs = [self._sensors[s][1]() for s in sensor_req]
 
         detectable_req = list(self._detectables) if detectable_req is None else detectable_req
+        # a mover is not considered after it stops
+        detectable_req = [d for d in detectable_req if d in self._detectables]
         detectable_req = [d for d in detectable_req if self._test_detect(d)]
         detect_locs = [self._detectables[d]() for d in detectable_req]
 
-- 
2.43.0


From 9502af642714f92096a934281ad02e1fa50f08eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:40 +0000
Subject: [PATCH 62/84] fix: stepped motion can run again after it shut down
 without events

---
 src/upstage_des/motion/stepped_motion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index 5116d39..9e63b24 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -199,6 +199,7 @@ class SteppedMotionManager(UpstageBase):
             if self._only_event_test():
                 n_empty += 1
                 if n_empty >= self._max_empty_events:
+                    self._is_running = False
                     return
             else:
                 n_empty = 0
-- 
2.43.0


From 5665607b8575d0daf383d33ba3de8c6e6b297349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:41 +0000
Subject: [PATCH 63/84] fix: stepped motion does not report an entity that
 became undetectable in the same step

---
 src/upstage_des/motion/stepped_motion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index 9e63b24..4c7deaa 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -169,6 +169,8 @@ class SteppedMotionManager(UpstageBase):
                 if detectable is sensor:
                     continue
                 visible = self._detect_dist(loc, radius, d_loc, sensor)
+                # a sensor notified before may have made it undetectable
+                visible = visible and self._test_detect(detectable)
                 self._do_log((self.env.now, sensor, loc, detectable, d_loc))
                 self._update_awareness(sensor, detectable, visible)
 
-- 
2.43.0


From 3e858c95d2ba716df1e103068bfa2582a5fcc242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:42 +0000
Subject: [PATCH 64/84] fix: stepped motion reports an undetectable entity to
 its sensors in the order they were added

The order was that of a set, and a sensor that changed the view failed the loop.
---
 src/upstage_des/motion/stepped_motion.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index 4c7deaa..ca285a1 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -286,13 +286,9 @@ class SteppedMotionManager(UpstageBase):
         Could be called for any reason; use this feature to alert sensors that
         an object should no longer be considered by that sensor.
         """
-        # TODO: key on detectable may make it faster
-        to_rem = set()
-        for sensor, detect in self._in_view:
-            if detect is detectable:
-                sensor.entity_exited_range(detectable)
-                to_rem.add((sensor, detect))
-        self._in_view -= to_rem
+        # Notify in the order the sensors were added
+        for sensor in list(self._sensors):
+            self._update_awareness(sensor, detectable, False)
 
     def _mover_became_detectable(self, detectable: Actor) -> None:
         """Called via DetectabilityState state when an object becomes detectable.
-- 
2.43.0


From 4d4e78ad784424cb76e5b14399490c12020c461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:12 +0000
Subject: [PATCH 65/84] fix: a nucleus interrupts networks in the order they
 were added, not by the hash seed

---
 src/upstage_des/nucleus.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/nucleus.py b/src/upstage_des/nucleus.py
index 2e43656..d40f509 100644
--- a/src/upstage_des/nucleus.py
+++ b/src/upstage_des/nucleus.py
@@ -50,8 +50,9 @@ class TaskNetworkNucleus:
             actor (Actor): The actor instance.
         """
         self._actor = actor
-        self._state_map: dict[str, set[str]] = defaultdict(set)
-        self._network_map: dict[str, set[str]] = defaultdict(set)
+        # Dictionaries, to keep the order in which networks and states are added
+        self._state_map: dict[str, dict[str, None]] = defaultdict(dict)
+        self._network_map: dict[str, dict[str, None]] = defaultdict(dict)
         self._attach()
 
     def add_network(
@@ -70,8 +71,8 @@ class TaskNetworkNucleus:
         if network_name not in self._actor._task_networks:
             raise UpstageError(f"No network {network_name} in {self._actor}")
         for state in watch_states:
-            self._state_map[state].add(network_name)
-            self._network_map[network_name].add(state)
+            self._state_map[state][network_name] = None
+            self._network_map[network_name][state] = None
             # if not hasattr(actor, state):
             #     raise SimulationError(f"State {state} does not exist on actor")
 
@@ -89,7 +90,7 @@ class TaskNetworkNucleus:
         if network_name not in self._actor._task_networks:
             raise UpstageError(f"No network {network_name} in {self._actor}")
         for state in self._network_map[network_name]:
-            self._state_map[state].remove(network_name)
+            del self._state_map[state][network_name]
         del self._network_map[network_name]
 
     def send_change(self, state_name: str, state_value: Any) -> None:
-- 
2.43.0


From da5a42fa0e6da9294f07fa3257eabf38a235834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:13 +0000
Subject: [PATCH 66/84] fix: the order of the entity groups does not depend on
 the hash seed

---
 src/upstage_des/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index 2d3a475..6ada6a5 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -415,7 +415,8 @@ class NamedUpstageEntity(UpstageBase):
         Args:
             group_names (list[str]): Group names to add to
         """
-        for group_name in group_names:
+        # Sorted, so that the order of the groups does not depend on the hash seed
+        for group_name in sorted(group_names):
             if group_name in SKIP_GROUPS:
                 continue
             self._add_to_group(group_name)
-- 
2.43.0


From 4fef9c89a65ae4f8e05a1f389e797f67249c512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:42 +0000
Subject: [PATCH 67/84] fix: the states of a task are deactivated in an order
 that does not depend on the hash seed

---
 src/upstage_des/actor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index dbcb5fe..625f1a8 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -435,7 +435,9 @@ Args:
         Args:
             task (Task): The task that is deactivating the states.
         """
-        state_names = list(self._states_by_task[task])
+        mine = self._states_by_task[task]
+        # In the order of declaration, not in the order of the set
+        state_names = [name for name in self._state_defs if name in mine]
         self.deactivate_states(states=state_names, task=task)
 
     def get_active_state_data(
-- 
2.43.0


From 8ab9d695a962d4d9a704b59fbe2757fe7ee5fb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:41 +0000
Subject: [PATCH 68/84] fix: a state without a value does not prevent making a
 data table

---
 src/upstage_des/data_utils/data_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index b4eef68..9f0ca76 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -101,6 +101,9 @@ def _actor_state_data(
     for state_name, state in actor._state_defs.items():
         if skip_locations and isinstance(state, LOCATION_TYPES):
             continue
+        if state_name not in actor.__dict__:
+            # Allowed to have no value, and has none yet
+            continue
         _value = actor.__dict__[state_name]
         is_active = isinstance(state, ActiveState)
         is_prefilled = any(key.startswith(f"{state_name}.") for key in actor._state_histories)
-- 
2.43.0


From 5b3888581dfc6953fb5031a3f38d07cd34c67629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:42 +0000
Subject: [PATCH 69/84] fix: the columns of a location table are those of the
 actors that have locations

---
 src/upstage_des/data_utils/data_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index 9f0ca76..f4505d1 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -258,7 +258,10 @@ def create_location_table() -> tuple[list[LOCATION_DATA_ROW], list[str]]:
     """
     _base = UpstageBase()
     data: list[LOCATION_DATA_ROW] = []
+    cols = ["X", "Y", "Z"]
     for actor in _base.get_actors():
-        _data, cols = _actor_location_data(actor)
+        _data, _cols = _actor_location_data(actor)
+        if _data:
+            cols = _cols
         data.extend(_data)
     return data, COLUMN_NAMES + cols + [ACTIVATION_STATUS_COL]
-- 
2.43.0


From 85772dfb2a2285955f4d1bed45d527f6a46c5178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:43 +0000
Subject: [PATCH 70/84] fix: a data table has the recorded values of keys, also
 of those added or removed unseen

---
 src/upstage_des/data_utils/data_utils.py | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index f4505d1..e10fdd2 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -1,6 +1,6 @@
 """Utilities for gathering all recorded simulation data."""
 
-from dataclasses import asdict, fields, is_dataclass
+from dataclasses import asdict, is_dataclass
 from typing import Any, cast
 
 from upstage_des.actor import Actor
@@ -68,14 +68,6 @@ def _state_history_to_table(
     return data
 
 
-def _key_list(obj: Any) -> list[str]:
-    if isinstance(obj, dict):
-        return [str(x) for x in obj.keys()]
-    if is_dataclass(obj):
-        return [f.name for f in fields(obj)]
-    raise ValueError(f"Unexpected data type for state history: {obj}")
-
-
 def _actor_state_data(
     actor: Actor,
     skip_locations: bool = True,
@@ -114,14 +106,11 @@ def _actor_state_data(
                 )
             )
         elif is_prefilled:
-            for key in _key_list(_value):
-                sname = f"{state_name}.{key}"
-                assert sname in actor._state_histories
-                data.extend(
-                    _state_history_to_table(
-                        name, kind, sname, is_active, actor._state_histories[sname]
-                    )
-                )
+            # The keys that have been recorded, whether they still exist or not
+            func_names = [fname for _, fname in state._recording_functions]
+            for sname, history in actor._state_histories.items():
+                if sname.startswith(f"{state_name}.") and sname not in func_names:
+                    data.extend(_state_history_to_table(name, kind, sname, is_active, history))
         elif hasattr(_value, "_quantities"):
             resources.append(_value)
             data.extend(_state_history_to_table(name, kind, state_name, False, _value._quantities))
-- 
2.43.0


From 8e85c9e9b1f698b2878d10067d8251214b6e3cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:44 +0000
Subject: [PATCH 71/84] fix: a data table has the values recorded by recording
 functions

---
 src/upstage_des/data_utils/data_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index e10fdd2..eaa3a9d 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -91,6 +91,9 @@ def _actor_state_data(
     name, kind = actor.name, actor.__class__.__name__
 
     for state_name, state in actor._state_defs.items():
+        for _, func_name in state._recording_functions:
+            history = actor._state_histories.get(func_name, [])
+            data.extend(_state_history_to_table(name, kind, func_name, False, history))
         if skip_locations and isinstance(state, LOCATION_TYPES):
             continue
         if state_name not in actor.__dict__:
-- 
2.43.0


From a0930008f7227fb2266fd5fddb0da2653d76295c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:45 +0000
Subject: [PATCH 72/84] fix: a data table leaves out the resources of actors,
 not those that equal them

---
 src/upstage_des/data_utils/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index eaa3a9d..d226fc7 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -217,7 +217,7 @@ def create_table(
         data.extend(_data)
 
     for monitoring in _base.get_monitored():
-        if monitoring in seen_resources:
+        if any(monitoring is resource for resource in seen_resources):
             continue
         name = f"{monitoring.name}"
         kind = f"{monitoring.__class__.__name__}"
-- 
2.43.0


From f94bb199dc597e25dcb7f77ef10f02f6df2148de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:15 +0000
Subject: [PATCH 73/84] fix: WGS84 distance of points that differ by less than
 a rounding error

---
 src/upstage_des/geography/wgs84.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/geography/wgs84.py b/src/upstage_des/geography/wgs84.py
index 33520bf..b8853f2 100644
--- a/src/upstage_des/geography/wgs84.py
+++ b/src/upstage_des/geography/wgs84.py
@@ -112,6 +112,8 @@ class WGS84(WGS84Conversions):
 
             cos_sigma = sin_u1 * sin_u2 + cos_u1 * cos_u2 * cos_lambda
             sigma = atan2(sin_sigma, cos_sigma)
+            if sigma == 0:
+                return 0.0, 0.0  # too close to tell apart
             sin_alpha = cos_u1 * cos_u2 * sin_lambda / sin_sigma
             cos_sq_alpha = 1 - sin_alpha**2
             try:
-- 
2.43.0


From 8ca10895791f9bcd1ec0489809994dcca681813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:16 +0000
Subject: [PATCH 74/84] fix: equality of geodetic locations does not depend on
 which side is in radians

---
 src/upstage_des/data_types.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/data_types.py b/src/upstage_des/data_types.py
index 84adeb8..1f9cb9a 100644
--- a/src/upstage_des/data_types.py
+++ b/src/upstage_des/data_types.py
@@ -503,10 +503,8 @@ class GeodeticLocation(Location):
         if not isinstance(other, GeodeticLocation):
             raise ValueError(f"Cannot compare a {other.__class__.__name__} to a GeodeticLocation")
         if other.in_radians != self.in_radians:
-            if self.in_radians:
-                other = other.to_radians()
-            else:
-                other = other.to_degrees()
+            # in radians for both sides, so that it does not matter which one is asked
+            return self.to_radians() == other.to_radians()
         return all(
             getattr(self, dimension) == getattr(other, dimension)
             for dimension in ["lat", "lon", "alt"]
@@ -622,11 +620,12 @@ class GeodeticLocationData:
             raise ValueError(
                 f"Cannot compare a {value.__class__.__name__} to a GeodeticLocationData"
             )
-        other = [value.lat, value.lon]
+        mine, other = [self.lat, self.lon], [value.lat, value.lon]
         if value.in_radians != self.in_radians:
+            # in radians for both sides, so that it does not matter which one is asked
             if self.in_radians:
                 other = list(map(radians, other))
             else:
-                other = list(map(degrees, other))
-        angles = [self.lat, self.lon] == other
+                mine = list(map(radians, mine))
+        angles = mine == other
         return angles and self.alt == value.alt
-- 
2.43.0


From 20b95006a9b1f66f63fa831f138e4ec379d597e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:58 +0000
Subject: [PATCH 75/84] fix: geodetic paths may have locations in radians

---
 src/upstage_des/states.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index f5b9c18..c48673e 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -774,8 +774,8 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
         starts: list[GeodeticLocation] = []
         for wypt in waypoints:
             dist, bear = STAGE.stage_model.distance_and_bearing(
-                (current.lat, current.lon),
-                (wypt.lat, wypt.lon),
+                current.latlon(),
+                wypt.latlon(),
                 units=STAGE.distance_units,
             )
             time = dist / speed
@@ -892,7 +892,7 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
             path_start: GeodeticLocation = path_data["starts"][wypt_index]
             moved_distance = (time_along / path_time) * path_dist
             new_point = STAGE.stage_model.point_from_bearing_dist(
-                (path_start.lat, path_start.lon),
+                path_start.latlon(),
                 path_bearing,
                 moved_distance,
                 STAGE.distance_units,
-- 
2.43.0


From d11a92d9963ab9335854c5eacef62f5e9011810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:40 +0000
Subject: [PATCH 76/84] fix: a path does not change with the list its waypoints
 were given in

---
 src/upstage_des/states.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index c48673e..28ad7e3 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -565,7 +565,8 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
         data = self.get_activity_data(instance)
         current: CartesianLocation = data["value"]
         speed: float = data["speed"]
-        waypoints: list[CartesianLocation] = data["waypoints"]
+        # the caller may go on using its own list
+        waypoints: list[CartesianLocation] = list(data["waypoints"])
         # get the times, distances, and bearings from the waypoints
         times: list[float] = []
         distances: list[float] = []
@@ -766,7 +767,8 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
         data = self.get_activity_data(instance)
         current: GeodeticLocation = data["value"]
         speed: float = data["speed"]
-        waypoints: list[GeodeticLocation] = data["waypoints"]
+        # the caller may go on using its own list
+        waypoints: list[GeodeticLocation] = list(data["waypoints"])
         # get the times, distances, and bearings from the waypoints
         times: list[float] = []
         distances: list[float] = []
-- 
2.43.0


From a5a961535aea044ef8743b3010e195f0284a5ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:43 +0000
Subject: [PATCH 77/84] fix: spherical paths that start at a pole go in the
 direction of their bearing

---
 src/upstage_des/geography/spherical.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index 2edff5c..f19aa47 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -345,8 +345,9 @@ class Spherical(SphericalConversions):
         )
 
         lon2 = lon1 + atan2(
-            sin(bearing) * sin(dist / spherical_radius) * cos(lat1),
-            cos(dist / spherical_radius) - sin(lat1) * sin(lat2),
+            sin(bearing) * sin(dist / spherical_radius),
+            cos(dist / spherical_radius) * cos(lat1)
+            - sin(dist / spherical_radius) * sin(lat1) * cos(bearing),
         )
 
         return degrees(lat2), degrees(lon2)
-- 
2.43.0


From 1f152ad895240b85e339ae6c48f32b7ff2e39921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:22 +0000
Subject: [PATCH 78/84] fix: WGS84 points from a bearing and distance have the
 right longitude

---
 src/upstage_des/geography/wgs84.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/geography/wgs84.py b/src/upstage_des/geography/wgs84.py
index b8853f2..a311341 100644
--- a/src/upstage_des/geography/wgs84.py
+++ b/src/upstage_des/geography/wgs84.py
@@ -239,7 +239,7 @@ class WGS84(WGS84Conversions):
         )
         C = f / 16 * cos_sq_alpha * (4 + f * (4 - 3 * cos_sq_alpha))
         L = lam - (1 - C) * f * sin_alpha * (
-            sigma + C * sin_alpha * (cos2_sigma_m + C * cos_sigma * (-1 + 2 * cos2_sigma_m**2))
+            sigma + C * sin_sigma * (cos2_sigma_m + C * cos_sigma * (-1 + 2 * cos2_sigma_m**2))
         )
         lambda_2 = lambda_1 + L
 
-- 
2.43.0


From d97585f8228400996171e70d5ed80bc0daac2b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:20 +0000
Subject: [PATCH 79/84] fix: cross track points behind the origin of the path
 are not mirrored

---
 src/upstage_des/geography/spherical.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index f19aa47..1b25bc0 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -4,7 +4,7 @@
 # See the LICENSE file in the project root for complete license terms and disclaimers.
 """Geographical math using spherical coordinates for Earth."""
 
-from math import acos, asin, atan2, cos, degrees, radians, sin, sqrt
+from math import asin, atan2, cos, degrees, radians, sin, sqrt
 
 from upstage_des.math_utils import _vector_dot, _vector_norm
 from upstage_des.units import unit_convert
@@ -404,9 +404,9 @@ class Spherical(SphericalConversions):
         delta_1_3 = cls.distance(origin, point, units="m") / spherical_radius
         theta_1_3 = radians(cls.bearing(origin, point))
         theta_1_2 = radians(cls.bearing(origin, destination))
-        d = asin(sin(delta_1_3) * sin(theta_1_3 - theta_1_2))
-
-        dist_from_origin = acos(cos(delta_1_3) / cos(d)) * spherical_radius
+        # negative when the closest point is behind the origin
+        along = atan2(sin(delta_1_3) * cos(theta_1_3 - theta_1_2), cos(delta_1_3))
+        dist_from_origin = along * spherical_radius
         cross_track_point = cls.point_from_bearing_dist(
             origin,
             degrees(theta_1_2),
-- 
2.43.0


From d4bc96a1111423e005f90b1193325701ddb09ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:21 +0000
Subject: [PATCH 80/84] fix: the spherical distance of opposite points does not
 fail from rounding

---
 src/upstage_des/geography/spherical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index 1b25bc0..0c3fe7c 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -288,7 +288,8 @@ class Spherical(SphericalConversions):
         lon1, lat1, lon2, lat2 = map(radians, positions)
         a = sin(0.5 * (lat2 - lat1)) ** 2 + cos(lat1) * cos(lat2) * sin(0.5 * (lon2 - lon1)) ** 2
 
-        dist_m = spherical_radius * 2 * atan2(sqrt(a), sqrt(1.0 - a))
+        # rounding can make a exceed one for opposite points
+        dist_m = spherical_radius * 2 * atan2(sqrt(a), sqrt(max(0.0, 1.0 - a)))
         return unit_convert(dist_m, "m", units)
 
     @classmethod
-- 
2.43.0


From b91f374a099c2e23fd3eeba7f5d1d3655673dd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:23 +0000
Subject: [PATCH 81/84] fix: great circle courses and positions that start at a
 pole

---
 src/upstage_des/motion/great_circle_calcs.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/motion/great_circle_calcs.py b/src/upstage_des/motion/great_circle_calcs.py
index 48ece6c..d0035d0 100644
--- a/src/upstage_des/motion/great_circle_calcs.py
+++ b/src/upstage_des/motion/great_circle_calcs.py
@@ -51,11 +51,12 @@ def get_course_rad(point1: GeodeticLocation, point2: GeodeticLocation) -> float:
         # any course will do
         return 0.0
 
-    # rounding can make this exceed one for north and south courses
-    cos_tcl = (sin(point2.lat) - sin(point1.lat) * cos(d)) / (sin(d) * cos(point1.lat))
-    tcl = acos(max(-1.0, min(1.0, cos_tcl)))
-    if sin(point2.lon - point1.lon) >= 0:
-        tcl = 2.0 * pi - tcl
+    # this form also holds when point1 is a pole
+    dlon = point2.lon - point1.lon
+    tcl = 2.0 * pi - atan2(
+        sin(dlon) * cos(point2.lat),
+        cos(point1.lat) * sin(point2.lat) - sin(point1.lat) * cos(point2.lat) * cos(dlon),
+    ) % (2.0 * pi)
 
     return tcl
 
@@ -79,8 +80,8 @@ def get_pos_from_points_and_distance(
     lat: float = asin(sin(point1.lat) * cos(dist) + cos(point1.lat) * sin(dist) * cos(tc))
 
     dlon = atan2(
-        sin(tc) * sin(dist) * cos(point1.lat),
-        cos(dist) - sin(point1.lat) * sin(lat),
+        sin(tc) * sin(dist),
+        cos(dist) * cos(point1.lat) - sin(dist) * sin(point1.lat) * cos(tc),
     )
 
     lon: float = ((point1.lon - dlon + pi) % (2.0 * pi)) - pi
-- 
2.43.0


From 71b31b20c25238b9401640cedc53aa8cf6243402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:08 +0000
Subject: [PATCH 82/84] fix: WGS84 positions at the poles convert from ECEF

---
 src/upstage_des/geography/conversions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/geography/conversions.py b/src/upstage_des/geography/conversions.py
index eb846cb..ae739f2 100644
--- a/src/upstage_des/geography/conversions.py
+++ b/src/upstage_des/geography/conversions.py
@@ -115,7 +115,8 @@ class BaseConversions:
         P = F / (3 * (s + 1 / s + 1) ** 2 * G * G)
         Q = sqrt(1 + 2 * e2 * e2 * P)
         ro = -(e2 * P * r) / (1 + Q) + sqrt(
-            (a * a / 2) * (1 + 1 / Q) - ((1 - e2) * P * Z2) / (Q * (1 + Q)) - P * r2 / 2
+            # zero at the poles, where rounding can make it negative
+            max(0.0, (a * a / 2) * (1 + 1 / Q) - ((1 - e2) * P * Z2) / (Q * (1 + Q)) - P * r2 / 2)
         )
         tmp = (r - e2 * ro) ** 2
         U = sqrt(tmp + Z2)
-- 
2.43.0


From 366a8b66e34eba59a2665ff73e40cb0b2f6167e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:33 +0000
Subject: [PATCH 83/84] fix: spherical positions at the poles do not fail from
 rounding

---
 src/upstage_des/geography/spherical.py       | 17 +++++++----------
 src/upstage_des/motion/great_circle_calcs.py | 12 ++++++------
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index 0c3fe7c..9671bb5 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -340,16 +340,13 @@ class Spherical(SphericalConversions):
         lat1 = radians(lat)
         lon1 = radians(lon)
 
-        lat2 = asin(
-            sin(lat1) * cos(dist / spherical_radius)
-            + cos(lat1) * sin(dist / spherical_radius) * cos(bearing)
-        )
-
-        lon2 = lon1 + atan2(
-            sin(bearing) * sin(dist / spherical_radius),
-            cos(dist / spherical_radius) * cos(lat1)
-            - sin(dist / spherical_radius) * sin(lat1) * cos(bearing),
-        )
+        ang = dist / spherical_radius
+        x = cos(ang) * cos(lat1) - sin(ang) * sin(lat1) * cos(bearing)
+        y = sin(bearing) * sin(ang)
+        z = sin(lat1) * cos(ang) + cos(lat1) * sin(ang) * cos(bearing)
+        # rounding can make z exceed one at the poles, where asin is not accurate either
+        lat2 = atan2(z, sqrt(x**2 + y**2))
+        lon2 = lon1 + atan2(y, x)
 
         return degrees(lat2), degrees(lon2)
 
diff --git a/src/upstage_des/motion/great_circle_calcs.py b/src/upstage_des/motion/great_circle_calcs.py
index d0035d0..4dd8c01 100644
--- a/src/upstage_des/motion/great_circle_calcs.py
+++ b/src/upstage_des/motion/great_circle_calcs.py
@@ -77,12 +77,12 @@ def get_pos_from_points_and_distance(
     point2 = point2.to_radians()
     tc = get_course_rad(point1, point2)  # course from point 1 to 2
 
-    lat: float = asin(sin(point1.lat) * cos(dist) + cos(point1.lat) * sin(dist) * cos(tc))
-
-    dlon = atan2(
-        sin(tc) * sin(dist),
-        cos(dist) * cos(point1.lat) - sin(dist) * sin(point1.lat) * cos(tc),
-    )
+    x = cos(dist) * cos(point1.lat) - sin(dist) * sin(point1.lat) * cos(tc)
+    y = sin(tc) * sin(dist)
+    z = sin(point1.lat) * cos(dist) + cos(point1.lat) * sin(dist) * cos(tc)
+    # rounding can make z exceed one at the poles, where asin is not accurate either
+    lat: float = atan2(z, sqrt(x**2 + y**2))
+    dlon = atan2(y, x)
 
     lon: float = ((point1.lon - dlon + pi) % (2.0 * pi)) - pi
 
-- 
2.43.0


From ec34c8063b084be1e32777ff41e74fb69de473c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:01 +0000
Subject: [PATCH 84/84] fix: paths with a sampled point on the sphere itself
 can be intersected

---
 src/upstage_des/geography/intersections.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/upstage_des/geography/intersections.py b/src/upstage_des/geography/intersections.py
index 802d55e..d0b7283 100644
--- a/src/upstage_des/geography/intersections.py
+++ b/src/upstage_des/geography/intersections.py
@@ -144,6 +144,7 @@ def find_crossing_points(
 
 
 def _split_down(
+    kind: str,
     begin: LAT_LON_ALT,
     end: LAT_LON_ALT,
     sphere_center: LAT_LON_ALT,
@@ -161,6 +162,7 @@ def _split_down(
     calls to find_crossing_points
 
     Args:
+        kind (str): The kind of crossing (ENTER or EXIT) from begin to end
         begin (LAT_LON_ALT): Starting point (degrees/meters)
         end (LAT_LON_ALT): Ending point (degrees/meters)
         sphere_center (LAT_LON_ALT): Center of the sensing sphere (not earth, degrees/meters)
@@ -185,6 +187,11 @@ def _split_down(
             radius,
             distance_between,
         )
+        if len(split_data) == 2:
+            # an end that is on the sphere can change sides from rounding
+            inside = split_data[0].kind == "START_INSIDE"
+            on_sphere = begin if inside == (kind == "ENTER") else end
+            return CrossingCondition(kind, begin=on_sphere, end=on_sphere)
         if len(split_data) != 3:
             raise IntersectionError(
                 "A subdivide split shouldn't have 2 crossovers in intersections with a sphere"
@@ -253,6 +260,7 @@ def get_intersection_locations(
     for condition in rough_split_data[1:-1]:
         assert condition.end is not None
         new_condition = _split_down(
+            condition.kind,
             condition.begin,
             condition.end,
             sphere_center,
-- 
2.43.0

