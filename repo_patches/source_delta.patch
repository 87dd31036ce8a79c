From 81ba77f8c6e13fe3a639ac2854b0a0668dde9c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 01/51] fix: restore the context locals also when handling an
 event fails

---
 launch/launch/launch_service.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index defd771..1385aed 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -236,19 +236,21 @@ class LaunchService:
                 self.__logger.debug(
                     "processing event: '{}' ✓ '{}'".format(event, event_handler))
                 self.__context._push_locals()
-                entities = event_handler.handle(event, self.__context)
-                entities = \
-                    entities if isinstance(entities, collections.abc.Iterable) else (entities,)
-                for entity in [e for e in entities if e is not None]:
-                    from .utilities import is_a_subclass
-                    if not is_a_subclass(entity, LaunchDescriptionEntity):
-                        raise RuntimeError(
-                            "expected a LaunchDescriptionEntity from event_handler, got '{}'"
-                            .format(entity)
-                        )
-                    self._entity_future_pairs.extend(
-                        visit_all_entities_and_collect_futures(entity, self.__context))
-                self.__context._pop_locals()
+                try:
+                    entities = event_handler.handle(event, self.__context)
+                    entities = \
+                        entities if isinstance(entities, collections.abc.Iterable) else (entities,)
+                    for entity in [e for e in entities if e is not None]:
+                        from .utilities import is_a_subclass
+                        if not is_a_subclass(entity, LaunchDescriptionEntity):
+                            raise RuntimeError(
+                                "expected a LaunchDescriptionEntity from event_handler, got '{}'"
+                                .format(entity)
+                            )
+                        self._entity_future_pairs.extend(
+                            visit_all_entities_and_collect_futures(entity, self.__context))
+                finally:
+                    self.__context._pop_locals()
             else:
                 pass
                 # Keep this commented for now, since it's very chatty.
-- 
2.43.0


From 997cf342a295b7ebf53e93b1f34446b485202295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 02/51] fix: keep waiting on what was started before a sibling
 entity raised

---
 .../visit_all_entities_and_collect_futures_impl.py     | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py b/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py
index ff94f99..d4d6e17 100644
--- a/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py
+++ b/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py
@@ -41,6 +41,12 @@ def visit_all_entities_and_collect_futures(
     if entity_future is not None:
         futures_to_return.append((entity, entity_future))
     if sub_entities is not None:
-        for sub_entity in sub_entities:
-            futures_to_return += visit_all_entities_and_collect_futures(sub_entity, context)
+        try:
+            for sub_entity in sub_entities:
+                futures_to_return += visit_all_entities_and_collect_futures(sub_entity, context)
+        except Exception:
+            # What was started before the failure still has to be waited on.
+            for _, future in futures_to_return:
+                context.add_completion_future(future)
+            raise
     return [future_pair for future_pair in futures_to_return if future_pair[1] is not None]
-- 
2.43.0


From 67dd1d541ae8922fa96c733ec9b7aa9baf82051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 03/51] fix: do not abort the run when an awaited action was
 cancelled

---
 launch/launch/launch_service.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 1385aed..519df16 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -331,6 +331,9 @@ class LaunchService:
                     # Propagate exception from completed tasks
                     exception_to_raise = None
                     for task in completed_tasks:
+                        if task.cancelled():
+                            # e.g. a coroutine action that was cancelled by the shutdown
+                            continue
                         exc = task.exception()
                         if exc is None:
                             continue
-- 
2.43.0


From b2975ff352cac6d3d7edd12da96842dbe472f2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 04/51] fix: report exceptions of actions which finish while
 events are queued

---
 launch/launch/launch_service.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 519df16..f9a340f 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -328,6 +328,11 @@ class LaunchService:
                         entity_futures,
                         return_when=asyncio.FIRST_COMPLETED
                     )
+                    # Consider the ones that were not waited on too, they are pruned when done
+                    completed_tasks.update(
+                        f for _, f in self._entity_future_pairs if f.done())
+                    completed_tasks.update(
+                        f for f in self.__context._completion_futures if f.done())
                     # Propagate exception from completed tasks
                     exception_to_raise = None
                     for task in completed_tasks:
-- 
2.43.0


From ff8ed3bf1ddd46d4e967e9542225da771f32c2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 05/51] fix: evaluate the period of a timer when it is started

---
 launch/launch/actions/timer_action.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/launch/launch/actions/timer_action.py b/launch/launch/actions/timer_action.py
index ac9049c..4777038 100644
--- a/launch/launch/actions/timer_action.py
+++ b/launch/launch/actions/timer_action.py
@@ -91,10 +91,10 @@ class TimerAction(Action):
             cancel_on_shutdown, bool)
         self.__logger = launch.logging.get_logger(__name__)
 
-    async def _wait_to_fire_event(self, context):
+    async def _wait_to_fire_event(self, context, period):
         done, pending = await asyncio.wait(
             [self._canceled_future],
-            timeout=type_utils.perform_typed_substitution(context, self.__period, float),
+            timeout=period,
         )
         if not self._canceled_future.done():
             await context.emit_event(TimerEvent(timer_action=self))
@@ -165,6 +165,11 @@ class TimerAction(Action):
         - create a task for the coroutine that waits until canceled or timeout
         - coroutine asynchronously fires event after timeout, if not canceled
         """
+        # Evaluate these now, the launch configurations may be different when the task runs.
+        period = type_utils.perform_typed_substitution(context, self.__period, float)
+        cancel_on_shutdown = type_utils.perform_typed_substitution(
+            context, self.__cancel_on_shutdown, bool)
+
         self._completed_future = context.asyncio_loop.create_future()
         self._canceled_future = context.asyncio_loop.create_future()
 
@@ -191,11 +196,11 @@ class TimerAction(Action):
 
         # Capture the current context locals so the yielded actions can make use of them too.
         self.__context_locals = dict(context.get_locals_as_dict())  # Capture a copy
-        context.asyncio_loop.create_task(self._wait_to_fire_event(context))
+        context.asyncio_loop.create_task(self._wait_to_fire_event(context, period))
 
         # By default, the 'shutdown' event will cause timers to cancel so they don't hold up the
         # launch process
-        if type_utils.perform_typed_substitution(context, self.__cancel_on_shutdown, bool):
+        if cancel_on_shutdown:
             context.register_event_handler(
                 EventHandler(
                     matcher=lambda event: is_a_subclass(event, Shutdown),
-- 
2.43.0


From a19402025bb0f9a901c3e1a6f7f4c39c5272cffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 06/51] fix: arguments nested in conditional entities are
 conditionally included

---
 launch/launch/launch_description.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch/launch/launch_description.py b/launch/launch/launch_description.py
index ac67de0..fff9bcf 100644
--- a/launch/launch/launch_description.py
+++ b/launch/launch/launch_description.py
@@ -150,7 +150,7 @@ class LaunchDescription(LaunchDescriptionEntity):
                         next_nested_ild_actions.append(entity)
                     process_entities(
                         entity.describe_sub_entities(),
-                        _conditional_inclusion=False,
+                        _conditional_inclusion=_conditional_inclusion,
                         nested_ild_actions=next_nested_ild_actions)
                     for conditional_sub_entity in entity.describe_conditional_sub_entities():
                         process_entities(
-- 
2.43.0


From aa518dc7599cb8d2c09bae612c901bfc83cac75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 07/51] fix: restore the launch file locals of the including
 file after an include

---
 launch/launch/launch_context.py                           | 8 ++++++++
 .../visit_all_entities_and_collect_futures_impl.py        | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/launch/launch/launch_context.py b/launch/launch/launch_context.py
index ecd29cb..f67a77e 100644
--- a/launch/launch/launch_context.py
+++ b/launch/launch/launch_context.py
@@ -127,6 +127,14 @@ class LaunchContext:
         self.__locals.update(extensions)
         self._clear_combined_locals_cache()
 
+    def _save_locals(self, names: Iterable[Text]) -> Dict[Text, Any]:
+        return {name: self.__locals[name] for name in names if name in self.__locals}
+
+    def _restore_locals(self, names: Iterable[Text], saved: Dict[Text, Any]) -> None:
+        for name in names:
+            self.__locals.pop(name, None)
+        self.extend_locals(saved)
+
     def _clear_combined_locals_cache(self):
         self.__combined_locals_cache = None
 
diff --git a/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py b/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py
index d4d6e17..3fec04c 100644
--- a/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py
+++ b/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py
@@ -35,6 +35,10 @@ def visit_all_entities_and_collect_futures(
 
     This function may call itself to traverse the sub-entities recursively.
     """
+    from ..actions import IncludeLaunchDescription
+    # These describe the file being included, the including one is current again afterwards.
+    file_locals = ('current_launch_file_path', 'current_launch_file_directory')
+    saved_locals = context._save_locals(file_locals)
     sub_entities = entity.visit(context)
     entity_future = entity.get_asyncio_future()
     futures_to_return = []
@@ -49,4 +53,6 @@ def visit_all_entities_and_collect_futures(
             for _, future in futures_to_return:
                 context.add_completion_future(future)
             raise
+    if isinstance(entity, IncludeLaunchDescription):
+        context._restore_locals(file_locals, saved_locals)
     return [future_pair for future_pair in futures_to_return if future_pair[1] is not None]
-- 
2.43.0


From 45dfdc99700335d15e5b7ed68f6f88ce9bdec07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 08/51] fix: argument check of an include with not yet known
 nested argument names

---
 launch/launch/actions/include_launch_description.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/launch/launch/actions/include_launch_description.py b/launch/launch/actions/include_launch_description.py
index d022d5e..5a6cc17 100644
--- a/launch/launch/actions/include_launch_description.py
+++ b/launch/launch/actions/include_launch_description.py
@@ -167,8 +167,15 @@ class IncludeLaunchDescription(Action):
                 continue
             argument_names = my_argument_names
             if ild_actions is not None:
-                for ild_action in ild_actions:
-                    argument_names.extend(ild_action._try_get_arguments_names_without_context())
+                nested_argument_names = [
+                    ild_action._try_get_arguments_names_without_context()
+                    for ild_action in ild_actions
+                ]
+                if None in nested_argument_names:
+                    # Some of the names are not known yet, so this argument may be among them.
+                    continue
+                for names in nested_argument_names:
+                    argument_names.extend(names)
             if argument.name not in argument_names:
                 raise RuntimeError(
                     "Included launch description missing required argument '{}' "
-- 
2.43.0


From 5ca9b7a26ec1f9ba6bb6895a520e2c2483f1929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 09/51] fix: do not attribute arguments to includes that do not
 contain them

---
 launch/launch/launch_description.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/launch/launch/launch_description.py b/launch/launch/launch_description.py
index fff9bcf..4605610 100644
--- a/launch/launch/launch_description.py
+++ b/launch/launch/launch_description.py
@@ -145,9 +145,7 @@ class LaunchDescription(LaunchDescriptionEntity):
                 else:
                     next_nested_ild_actions = nested_ild_actions
                     if isinstance(entity, IncludeLaunchDescription):
-                        if next_nested_ild_actions is None:
-                            next_nested_ild_actions = []
-                        next_nested_ild_actions.append(entity)
+                        next_nested_ild_actions = [*(nested_ild_actions or []), entity]
                     process_entities(
                         entity.describe_sub_entities(),
                         _conditional_inclusion=_conditional_inclusion,
-- 
2.43.0


From b3024c259201faa9c2221f308ca87ec6e3573f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 10/51] fix: process the completion events of actions that
 finish last

---
 launch/launch/launch_service.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index f9a340f..4fd0239 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -292,6 +292,10 @@ class LaunchService:
                     # Check if we're idle, i.e. no on-going entities (actions) or events in
                     # the queue
                     is_idle = self._is_idle()  # self._entity_future_pairs is pruned here
+                    if is_idle:
+                        # Let the callbacks of what has just finished emit their events first
+                        await asyncio.sleep(0)
+                        is_idle = self._is_idle()
                     if not self.__shutting_down and shutdown_when_idle and is_idle:
                         ret = self._shutdown(reason='idle', due_to_sigint=False)
                         if ret is not None:
-- 
2.43.0


From abd9b477851a845eebf152e96b007f6fed6bea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 11/51] fix: deferred process shutdown waits for the start of
 that process only

It used to react to the start of any process by registering itself again, which
doubled the number of handlers with every other process that was starting.
---
 launch/launch/actions/execute_local.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 9c53671..07a914b 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -284,6 +284,7 @@ class ExecuteLocal(Action):
             # Do not set shutdown result, as event is postponed
             context.register_event_handler(
                 OnProcessStart(
+                    target_action=lambda action: action is self,
                     on_start=lambda event, context:
                     self._shutdown_process(context, send_sigint=send_sigint)))
             return None
-- 
2.43.0


From 83e0d256a2fc2d6c2328d43c480c74a43622ea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 12/51] fix: complete the process action when emulate_tty can
 not be evaluated

The exception escaped from the task, so the action never completed and the run
never ended.
---
 launch/launch/actions/execute_local.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 07a914b..6efc809 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -557,16 +557,16 @@ class ExecuteLocal(Action):
                 'True' if env is not None else 'False'
             ))
 
-        emulate_tty = self.__emulate_tty
-        if 'emulate_tty' in context.launch_configurations:
-            emulate_tty = evaluate_condition_expression(
-                context,
-                normalize_to_list_of_substitutions(
-                    context.launch_configurations['emulate_tty']
-                ),
-            )
-
         try:
+            emulate_tty = self.__emulate_tty
+            if 'emulate_tty' in context.launch_configurations:
+                emulate_tty = evaluate_condition_expression(
+                    context,
+                    normalize_to_list_of_substitutions(
+                        context.launch_configurations['emulate_tty']
+                    ),
+                )
+
             transport, self._subprocess_protocol = await async_execute_process(
                 lambda **kwargs: self.__ProcessProtocol(
                     self, context, process_event_args, **kwargs
-- 
2.43.0


From 80a9930186eb98599dc64042c9b8609d622e49f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 13/51] fix: emit the start event of a process before events
 for its output

Output which is available while the pipes are being connected was reported
before the start event.
---
 launch/launch/actions/execute_local.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 6efc809..0a04960 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -525,6 +525,7 @@ class ExecuteLocal(Action):
             **kwargs
         ) -> None:
             super().__init__(**kwargs)
+            self.__action = action
             self.__context = context
             self.__process_event_args = process_event_args
             self.__logger = launch.logging.get_logger(process_event_args['name'])
@@ -535,6 +536,10 @@ class ExecuteLocal(Action):
             )
             super().connection_made(transport)
             self.__process_event_args['pid'] = transport.get_pid()
+            # The process may produce output before the coroutine that started it is resumed.
+            self.__action._subprocess_transport = transport
+            self.__action._subprocess_protocol = self
+            self.__context.emit_event_sync(ProcessStarted(**self.__process_event_args))
 
         def on_stdout_received(self, data: bytes) -> None:
             self.__context.emit_event_sync(ProcessStdout(text=data, **self.__process_event_args))
@@ -567,7 +572,7 @@ class ExecuteLocal(Action):
                     ),
                 )
 
-            transport, self._subprocess_protocol = await async_execute_process(
+            transport, protocol = await async_execute_process(
                 lambda **kwargs: self.__ProcessProtocol(
                     self, context, process_event_args, **kwargs
                 ),
@@ -586,11 +591,8 @@ class ExecuteLocal(Action):
             return
 
         pid = transport.get_pid()
-        self._subprocess_transport = transport
 
-        await context.emit_event(ProcessStarted(**process_event_args))
-
-        returncode = await self._subprocess_protocol.complete
+        returncode = await protocol.complete
         if returncode == 0:
             self.__logger.info('process has finished cleanly [pid {}]'.format(pid))
         else:
-- 
2.43.0


From 4763fe32586d2dc327b7a86447092c1a41eb6d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 14/51] fix: do not lose a shutdown while a process is being
 respawned

Between the decision to respawn and the start of the new process a shutdown was
handled as if the old process was still there: the new one was started anyway and
never received the SIGINT.
---
 launch/launch/actions/execute_local.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 0a04960..ddb4209 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -223,6 +223,7 @@ class ExecuteLocal(Action):
         self.__stderr_buffer = io.StringIO()
 
         self.__executed = False
+        self._start_pending = False  # True until the (re)starting process is up
 
     @property
     def process_description(self):
@@ -280,7 +281,7 @@ class ExecuteLocal(Action):
             return None
 
         # Defer shut down if the process is scheduled to be started
-        if (self.process_details is None or self._subprocess_transport is None):
+        if (self.process_details is None or self._start_pending):
             # Do not set shutdown result, as event is postponed
             context.register_event_handler(
                 OnProcessStart(
@@ -539,6 +540,7 @@ class ExecuteLocal(Action):
             # The process may produce output before the coroutine that started it is resumed.
             self.__action._subprocess_transport = transport
             self.__action._subprocess_protocol = self
+            self.__action._start_pending = False
             self.__context.emit_event_sync(ProcessStarted(**self.__process_event_args))
 
         def on_stdout_received(self, data: bytes) -> None:
@@ -548,6 +550,13 @@ class ExecuteLocal(Action):
             self.__context.emit_event_sync(ProcessStderr(text=data, **self.__process_event_args))
 
     async def __execute_process(self, context: LaunchContext) -> None:
+        # There must be nothing to wait for between the decision to respawn and the start, else
+        # a shutdown could be missed.
+        while await self.__execute_process_once(context):
+            pass
+
+    async def __execute_process_once(self, context: LaunchContext) -> bool:
+        """Run the process, return True if it has to be respawned."""
         process_event_args = self.__process_event_args
         if process_event_args is None:
             raise RuntimeError('process_event_args unexpectedly None')
@@ -588,7 +597,7 @@ class ExecuteLocal(Action):
                 traceback.format_exc()
             ))
             self.__cleanup()
-            return
+            return False
 
         pid = transport.get_pid()
 
@@ -619,10 +628,11 @@ class ExecuteLocal(Action):
                     (self.__shutdown_future,),
                     timeout=self.__respawn_delay
                 )
-            if not self.__shutdown_future.done():
-                context.asyncio_loop.create_task(self.__execute_process(context))
-                return
+            if not context.is_shutdown and not self.__shutdown_future.done():
+                self._start_pending = True
+                return True
         self.__cleanup()
+        return False
 
     def prepare(self, context: LaunchContext):
         """Prepare the action for execution."""
@@ -717,6 +727,7 @@ class ExecuteLocal(Action):
             else:
                 self.__stdout_logger, self.__stderr_logger = \
                     launch.logging.get_output_loggers(name, self.__output)
+            self._start_pending = True
             context.asyncio_loop.create_task(self.__execute_process(context))
         except Exception:
             for event_handler in event_handlers:
-- 
2.43.0


From 651714d6739e0997951c7e12ac7140e878f04827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 15/51] fix: decode process output across reads

A character whose bytes were divided between two reads was logged and cached as
replacement characters.
---
 launch/launch/actions/execute_local.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index ddb4209..1d17e49 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -15,6 +15,7 @@
 """Module for the ExecuteLocal action."""
 
 import asyncio
+import codecs
 import io
 import logging
 import os
@@ -221,6 +222,10 @@ class ExecuteLocal(Action):
         self.__sigkill_timer = None  # type: Optional[TimerAction]
         self.__stdout_buffer = io.StringIO()
         self.__stderr_buffer = io.StringIO()
+        # A character may be divided between two reads.
+        decoder = codecs.getincrementaldecoder('utf-8')
+        self.__stdout_decoder = decoder(errors='replace')
+        self.__stderr_decoder = decoder(errors='replace')
 
         self.__executed = False
         self._start_pending = False  # True until the (re)starting process is up
@@ -363,10 +368,13 @@ class ExecuteLocal(Action):
         cast(ProcessStdin, event)
         return None
 
+    def __decoder(self, buffer: io.TextIOBase) -> codecs.IncrementalDecoder:
+        return self.__stdout_decoder if buffer is self.__stdout_buffer else self.__stderr_decoder
+
     def __on_process_output(
         self, event: ProcessIO, buffer: io.TextIOBase, logger: logging.Logger
     ) -> None:
-        to_write = event.text.decode(errors='replace')
+        to_write = self.__decoder(buffer).decode(event.text)
         if buffer.closed:
             # buffer was probably closed by __flush_buffers on shutdown.  Output without
             # buffering.
@@ -391,13 +399,13 @@ class ExecuteLocal(Action):
                 buffer.write(last_line)
 
     def __flush_buffers(self, event, context):
-        line = self.__stdout_buffer.getvalue()
+        line = self.__stdout_buffer.getvalue() + self.__stdout_decoder.decode(b'', final=True)
         if line != '':
             self.__stdout_logger.info(
                 self.__output_format.format(line=line, this=self)
             )
 
-        line = self.__stderr_buffer.getvalue()
+        line = self.__stderr_buffer.getvalue() + self.__stderr_decoder.decode(b'', final=True)
         if line != '':
             self.__stderr_logger.info(
                 self.__output_format.format(line=line, this=self)
@@ -417,7 +425,7 @@ class ExecuteLocal(Action):
     def __on_process_output_cached(
         self, event: ProcessIO, buffer, logger
     ) -> None:
-        to_write = event.text.decode(errors='replace')
+        to_write = self.__decoder(buffer).decode(event.text)
         last_cursor = buffer.tell()
         buffer.seek(0, os.SEEK_END)  # go to end of buffer
         buffer.write(to_write)
@@ -433,6 +441,12 @@ class ExecuteLocal(Action):
         buffer.seek(new_cursor)
 
     def __flush_cached_buffers(self, event, context):
+        for buffer in (self.__stdout_buffer, self.__stderr_buffer):
+            cursor = buffer.tell()
+            buffer.seek(0, os.SEEK_END)
+            buffer.write(self.__decoder(buffer).decode(b'', final=True))
+            buffer.seek(cursor)
+
         for line in self.__stdout_buffer:
             self.__stdout_logger.info(
                 self.__output_format.format(line=line, this=self)
-- 
2.43.0


From 8fa1c4f9730e49e22ef079406f4755e725e8b6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 16/51] fix: matching a pid while another process is still
 being started

---
 launch/launch/events/process/process_matchers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/launch/launch/events/process/process_matchers.py b/launch/launch/events/process/process_matchers.py
index 3549a09..4f54916 100644
--- a/launch/launch/events/process/process_matchers.py
+++ b/launch/launch/events/process/process_matchers.py
@@ -28,7 +28,8 @@ def matches_pid(pid: int) -> Callable[['ExecuteProcess'], bool]:
         if action.process_details is None:
             # This can happen if the process in the action has not been started.
             return False
-        return action.process_details['pid'] == pid
+        # There is no pid yet while the process is being started.
+        return action.process_details.get('pid') == pid
 
     return matcher
 
-- 
2.43.0


From d04dfc2d22dbcf387a29d4c12838dae72581d4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 17/51] fix: signalling a process which could not be started is
 not an error

The exception kept the signal from the other matching processes.
---
 launch/launch/actions/execute_local.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 1d17e49..50cfac1 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -322,6 +322,9 @@ class ExecuteLocal(Action):
         if not typed_event.process_matcher(self):
             # this event was not intended for this process
             return None
+        if self.__completed_future is not None and self.__completed_future.done():
+            # the process could not be started or is gone
+            return None
         if self.process_details is None:
             raise RuntimeError('Signal event received before execution.')
         if self._subprocess_transport is None:
-- 
2.43.0


From 7f3728d28dd4a824aa9a8552053f1e8e6fd80e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 18/51] fix: a process action which fails to execute is
 completed

---
 launch/launch/actions/execute_local.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 50cfac1..71e75c7 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -733,8 +733,6 @@ class ExecuteLocal(Action):
             context.register_event_handler(event_handler)
 
         try:
-            self.__completed_future = context.asyncio_loop.create_future()
-            self.__shutdown_future = context.asyncio_loop.create_future()
             self.__logger = launch.logging.get_logger(name)
             if not isinstance(self.__output, dict):
                 self.__stdout_logger, self.__stderr_logger = \
@@ -744,6 +742,9 @@ class ExecuteLocal(Action):
             else:
                 self.__stdout_logger, self.__stderr_logger = \
                     launch.logging.get_output_loggers(name, self.__output)
+            # Nothing would complete these futures if the above failed.
+            self.__completed_future = context.asyncio_loop.create_future()
+            self.__shutdown_future = context.asyncio_loop.create_future()
             self._start_pending = True
             context.asyncio_loop.create_task(self.__execute_process(context))
         except Exception:
-- 
2.43.0


From df8c3f537736148987f03967034cfbb45d451b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:36 +0000
Subject: [PATCH 19/51] fix: an exception in a shutdown handler does not keep
 others from shutting down

The shutdown event is emitted only once, so processes, timers and coroutines whose
handlers come after the one that raised were never stopped and the run never ended.
---
 launch/launch/launch_service.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 4fd0239..2977c3a 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -231,6 +231,7 @@ class LaunchService:
 
     async def __process_event(self, event: Event) -> None:
         self.__logger.debug("processing event: '{}'".format(event))
+        shutdown_exception = None
         for event_handler in tuple(self.__context._event_handlers):
             if event_handler.matches(event):
                 self.__logger.debug(
@@ -249,6 +250,14 @@ class LaunchService:
                             )
                         self._entity_future_pairs.extend(
                             visit_all_entities_and_collect_futures(entity, self.__context))
+                except Exception as exc:
+                    # The shutdown has to reach everything that is running, it is not repeated.
+                    if not isinstance(event, Shutdown):
+                        raise
+                    if shutdown_exception is None:
+                        shutdown_exception = exc
+                    else:
+                        self.__logger.error(exc)
                 finally:
                     self.__context._pop_locals()
             else:
@@ -257,6 +266,8 @@ class LaunchService:
                 # self.__logger.debug(
                 #     'launch.LaunchService',
                 #     "processing event: '{}' x '{}'".format(event, event_handler))
+        if shutdown_exception is not None:
+            raise shutdown_exception
 
     async def run_async(self, *, shutdown_when_idle=True) -> int:
         """
-- 
2.43.0


From c707817bfa398a474ec7cf7d6a132974618ebb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:45 +0000
Subject: [PATCH 20/51] fix: leave signals a manager did not see to the others
 when it is closed

---
 launch/launch/utilities/signal_management.py | 29 +++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/launch/launch/utilities/signal_management.py b/launch/launch/utilities/signal_management.py
index a078c69..2408a02 100644
--- a/launch/launch/utilities/signal_management.py
+++ b/launch/launch/utilities/signal_management.py
@@ -160,9 +160,21 @@ class AsyncSafeSignalManager:
             raise
 
     def __uninstall_signal_writers(self):
-        prev_wakeup_handle = self.__chain_wakeup_handle(-1)
+        prev_wakeup_handle = self.__prev_wakeup_handle
+        if isinstance(prev_wakeup_handle, socket.socket):
+            prev_wakeup_handle = prev_wakeup_handle.fileno()
         own_wakeup_handle = self.__set_wakeup_fd(prev_wakeup_handle)
         assert self.__wsock.fileno() == own_wakeup_handle
+        # Signals that were not handled yet are left to the previous wakeup handle.
+        try:
+            while True:
+                data = self.__rsock.recv(4096)
+                if not data:
+                    break
+                self.__forward(data)
+        except BlockingIOError:
+            pass
+        self.__chain_wakeup_handle(-1)
 
     def __chain(self):
         self.__parent = AsyncSafeSignalManager.__current
@@ -200,6 +212,14 @@ class AsyncSafeSignalManager:
         self.__prev_wakeup_handle = wakeup_handle
         return prev_wakeup_handle
 
+    def __forward(self, data):
+        if self.__prev_wakeup_handle != -1:
+            # Send over (Windows) socket or write file.
+            if isinstance(self.__prev_wakeup_handle, socket.socket):
+                self.__prev_wakeup_handle.send(data)
+            else:
+                os.write(self.__prev_wakeup_handle, data)
+
     def __handle_signal(self):
         while True:
             try:
@@ -210,12 +230,7 @@ class AsyncSafeSignalManager:
                     if signum not in self.__handlers:
                         continue
                     self.__handlers[signum](signum)
-                if self.__prev_wakeup_handle != -1:
-                    # Send over (Windows) socket or write file.
-                    if isinstance(self.__prev_wakeup_handle, socket.socket):
-                        self.__prev_wakeup_handle.send(data)
-                    else:
-                        os.write(self.__prev_wakeup_handle, data)
+                self.__forward(data)
             except InterruptedError:
                 continue
             except BlockingIOError:
-- 
2.43.0


From e4842ea30b23fbdc7a35b5fe1d820984c7b57f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:45 +0000
Subject: [PATCH 21/51] fix: a refused concurrent run leaves the active run
 alone

---
 launch/launch/launch_service.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 2977c3a..e704dae 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -152,13 +152,14 @@ class LaunchService:
 
     @contextlib.contextmanager
     def _prepare_run_loop(self):
+        # Runs are started from the main thread only, leave the state of another one alone.
+        if self.__loop_from_run_thread is not None:
+            raise RuntimeError(
+                'LaunchService cannot be run multiple times concurrently.'
+            )
         try:
             # Acquire the lock and initialize the loop.
             with self.__loop_from_run_thread_lock:
-                if self.__loop_from_run_thread is not None:
-                    raise RuntimeError(
-                        'LaunchService cannot be run multiple times concurrently.'
-                    )
                 this_loop = osrf_pycommon.process_utils.get_loop()
 
                 if self.__debug:
-- 
2.43.0


From 201ce2195d3b138e4d025581d7c334343097b618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:26 +0000
Subject: [PATCH 22/51] fix: emitting events and shutting down from other
 threads never blocks for ever

---
 launch/launch/launch_service.py | 99 +++++++++++++++++++++------------
 1 file changed, 62 insertions(+), 37 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index e704dae..df4cc2f 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -15,7 +15,9 @@
 """Module for the LaunchService class."""
 
 import asyncio
+import collections
 import collections.abc
+import concurrent.futures
 import contextlib
 import logging
 import platform
@@ -23,6 +25,7 @@ import signal
 import threading
 import traceback
 from typing import Coroutine
+from typing import Deque
 from typing import Iterable
 from typing import List  # noqa: F401
 from typing import Optional
@@ -88,6 +91,10 @@ class LaunchService:
         self.__loop_from_run_thread = None
         self.__this_task = None
 
+        # Events emitted by other threads which the loop has yet to put into the queue.
+        self.__events_to_emit: Deque[Tuple[Event, concurrent.futures.Future]] = \
+            collections.deque()
+
         # Used to indicate when shutdown() has been called.
         self.__shutting_down = False
         self.__shutdown_when_idle = False
@@ -103,20 +110,36 @@ class LaunchService:
         """
         future = None
         with self.__loop_from_run_thread_lock:
-            if self.__loop_from_run_thread is not None:
-                # loop is in use, asynchronously emit the event
-                future = asyncio.run_coroutine_threadsafe(
-                    self.__context.emit_event(event),
-                    self.__loop_from_run_thread
-                )
+            if (
+                self.__loop_from_run_thread is not None and
+                threading.current_thread() is not threading.main_thread()
+            ):
+                # loop is in use by the main thread, have it emit the event
+                future = self.__emit_from_loop(event)
             else:
-                # loop is not in use, synchronously emit the event, and it will be processed later
+                # loop is not in use, or this is the thread that it is running in,
+                # synchronously emit the event, and it will be processed later
                 self.__context.emit_event_sync(event)
 
         if future is not None:
-            # Block until asynchronously emitted event is emitted by loop
+            # Block until the event is emitted by the loop, or by the end of the run
             future.result()
 
+    def __emit_from_loop(self, event: Event) -> concurrent.futures.Future:
+        # Must be called with the lock held and while the loop is in use.
+        future: concurrent.futures.Future = concurrent.futures.Future()
+        self.__events_to_emit.append((event, future))
+        assert self.__loop_from_run_thread is not None
+        self.__loop_from_run_thread.call_soon_threadsafe(self.__emit_pending_events)
+        return future
+
+    def __emit_pending_events(self) -> None:
+        with self.__loop_from_run_thread_lock:
+            while self.__events_to_emit:
+                event, future = self.__events_to_emit.popleft()
+                self.__context.emit_event_sync(event)
+                future.set_result(None)
+
     def include_launch_description(self, launch_description: LaunchDescription) -> None:
         """
         Evaluate a given LaunchDescription and visits all of its entities.
@@ -148,7 +171,8 @@ class LaunchService:
     def _is_idle(self):
         number_of_entity_future_pairs = self._prune_and_count_entity_future_pairs()
         number_of_entity_future_pairs += self._prune_and_count_context_completion_futures()
-        return number_of_entity_future_pairs == 0 and self.__context._event_queue.empty()
+        return number_of_entity_future_pairs == 0 and self.__context._event_queue.empty() \
+            and not self.__events_to_emit
 
     @contextlib.contextmanager
     def _prepare_run_loop(self):
@@ -222,6 +246,7 @@ class LaunchService:
         finally:
             # No matter what happens, unset the loop.
             with self.__loop_from_run_thread_lock:
+                self.__emit_pending_events()
                 self.__context._set_asyncio_loop(None)
                 self.__loop_from_run_thread = None
                 self.__shutting_down = False
@@ -316,7 +341,10 @@ class LaunchService:
                         continue
 
                     # Stop running if we're shutting down and there's no more work
-                    if self.__shutting_down and is_idle:
+                    # (other threads change both, the shutdown event has to be processed)
+                    with self.__loop_from_run_thread_lock:
+                        is_done = self.__shutting_down and is_idle and self._is_idle()
+                    if is_done:
                         if (
                             process_one_event_task is not None and
                             not process_one_event_task.done()
@@ -416,27 +444,27 @@ class LaunchService:
         return None
 
     def _shutdown(self, *, reason, due_to_sigint, force_sync=False) -> Optional[Coroutine]:
-        # Assumption is that this method is only called when running.
         retval = None
-        if not self.__shutting_down:
-            shutdown_event = Shutdown(reason=reason, due_to_sigint=due_to_sigint)
-            asyncio_event_loop = None
-            try:
-                asyncio_event_loop = osrf_pycommon.process_utils.get_loop()
-            except (RuntimeError, AssertionError):
-                # If no event loop is set for this thread, asyncio will raise an exception.
-                # The exception type depends on the version of Python, so just catch both.
-                pass
-            if force_sync:
-                self.__context.emit_event_sync(shutdown_event)
-            elif self.__loop_from_run_thread == asyncio_event_loop:
-                # If in the thread of the loop.
-                retval = self.__context.emit_event(shutdown_event)
-            else:
-                # Otherwise in a different thread, so use the thread-safe method.
-                self.emit_event(shutdown_event)
-        self.__shutting_down = True
-        self.__context._set_is_shutdown(True)
+        future = None
+        with self.__loop_from_run_thread_lock:
+            if self.__loop_from_run_thread is None:
+                # Not running, or not anymore.
+                return None
+            # Only the first request emits the event, they may come from any thread.
+            if not self.__shutting_down:
+                shutdown_event = Shutdown(reason=reason, due_to_sigint=due_to_sigint)
+                if threading.current_thread() is not threading.main_thread():
+                    # In a different thread than the loop, so have the loop emit it.
+                    future = self.__emit_from_loop(shutdown_event)
+                elif force_sync:
+                    self.__context.emit_event_sync(shutdown_event)
+                else:
+                    retval = self.__context.emit_event(shutdown_event)
+            self.__shutting_down = True
+            self.__context._set_is_shutdown(True)
+        if future is not None:
+            # Block until the event is emitted by the loop, which may need the lock.
+            future.result()
         return retval
 
     def shutdown(self, force_sync=False) -> Optional[Coroutine]:
@@ -451,13 +479,10 @@ class LaunchService:
 
         This method is thread-safe.
         """
-        with self.__loop_from_run_thread_lock:
-            if self.__loop_from_run_thread is not None:
-                return self._shutdown(
-                    reason='LaunchService.shutdown() called',
-                    due_to_sigint=False, force_sync=force_sync
-                )
-        return None
+        return self._shutdown(
+            reason='LaunchService.shutdown() called',
+            due_to_sigint=False, force_sync=force_sync
+        )
 
     @property
     def context(self):
-- 
2.43.0


From a812e9fe5c4dcddf885f993504aa884dc9293256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:37 +0000
Subject: [PATCH 23/51] fix: an escaped backslash does not escape the character
 after it

---
 launch/share/launch/frontend/grammar.lark | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/launch/share/launch/frontend/grammar.lark b/launch/share/launch/frontend/grammar.lark
index 740c2c4..a3d3c6e 100644
--- a/launch/share/launch/frontend/grammar.lark
+++ b/launch/share/launch/frontend/grammar.lark
@@ -6,14 +6,17 @@
 
 IDENTIFIER: LETTER (LETTER | DIGIT | "_" | "-")*
 
-UNQUOTED_STRING: (/[^$]|\$(?!\()|(?<=\\)\$/)+
-UNQUOTED_RSTRING: (/[^ '\\"$\(\)]|(?<=\\)\(|(?<=\\)\)|\$(?!\()|(?<=\\)\$/ | "\\\"" | "\\'" | "\\")+
+// A backslash escapes the character that follows it, which may be another backslash.
+// (as a space separates arguments also after a backslash, it cannot be escaped in them)
 
-SINGLE_QUOTED_STRING: (/[^'\\$]|\$(?!\()|(?<=\\)\$/ | "\\'" | "\\")+
-SINGLE_QUOTED_RSTRING: (/[^ '\\$\(\)]|(?<=\\)\(|(?<=\\)\)|\$(?!\()|(?<=\\)\$/ | "\\'" | "\\")+
+UNQUOTED_STRING: (/\\.|\\(?!.)|[^\\$]|\$(?!\()/)+
+UNQUOTED_RSTRING: (/\\[^ \n]|\\(?![^ \n])|[^ '\\"$\(\)]|\$(?!\()/)+
 
-DOUBLE_QUOTED_STRING: (/[^"\\$]|\$(?!\()|(?<=\\)\$/ | "\\\"" | "\\")+
-DOUBLE_QUOTED_RSTRING: (/[^ "\\$\(\)]|(?<=\\)\(|(?<=\\)\)|\$(?!\()|(?<=\\)\$/ | "\\\"" | "\\")+
+SINGLE_QUOTED_STRING: (/\\.|\\(?!.)|[^'\\$]|\$(?!\()/)+
+SINGLE_QUOTED_RSTRING: (/\\[^ \n]|\\(?![^ \n])|[^ '\\$\(\)]|\$(?!\()/)+
+
+DOUBLE_QUOTED_STRING: (/\\.|\\(?!.)|[^"\\$]|\$(?!\()/)+
+DOUBLE_QUOTED_RSTRING: (/\\[^ \n]|\\(?![^ \n])|[^ "\\$\(\)]|\$(?!\()/)+
 
 single_quoted_part: single_quoted_substitution
   | SINGLE_QUOTED_RSTRING
-- 
2.43.0


From 1c788e17275b08c7e6508a623d5d712b66b4bbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:21 +0000
Subject: [PATCH 24/51] fix: a boolean is not accepted where integers are
 required

---
 launch/launch/utilities/type_utils.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/launch/launch/utilities/type_utils.py b/launch/launch/utilities/type_utils.py
index cae6373..b2e9454 100644
--- a/launch/launch/utilities/type_utils.py
+++ b/launch/launch/utilities/type_utils.py
@@ -162,6 +162,13 @@ def extract_type(data_type: AllowedTypesType) -> Tuple[ScalarTypesType, bool]:
     return (scalar_type, is_list)
 
 
+def _is_instance(value: Any, types: Any) -> bool:
+    """Return `True` if `value` is one of `types`, where a `bool` is not an `int`."""
+    if isinstance(value, bool):
+        return bool in (types if isinstance(types, tuple) else (types,))
+    return isinstance(value, types)
+
+
 def is_instance_of_valid_type(value: Any, *, can_be_str: bool = False) -> bool:
     """
     Return `True` if value is an instance of an allowed type.
@@ -179,7 +186,7 @@ def is_instance_of_valid_type(value: Any, *, can_be_str: bool = False) -> bool:
         if member_type not in ScalarTypesTuple:
             return False
         valid_types = (member_type, str) if can_be_str else member_type
-        return all(isinstance(x, valid_types) for x in value)
+        return all(_is_instance(x, valid_types) for x in value)
     return isinstance(value, ScalarTypesTuple)
 
 
@@ -207,10 +214,10 @@ def is_instance_of(
     if can_be_str:
         type_obj = (str, type_obj)
     if not is_list:
-        return isinstance(value, type_obj)
+        return _is_instance(value, type_obj)
     if not isinstance(value, list):
         return False
-    return all(isinstance(x, type_obj) for x in value)
+    return all(_is_instance(x, type_obj) for x in value)
 
 
 def coerce_to_type(
@@ -262,7 +269,7 @@ def coerce_to_type(
             value, f"Cannot convert value '{value}' to a list of '{valid_types}'")
         if not isinstance(output, list):
             raise ValueError(f"Cannot convert value '{value}' to a list of '{valid_types}'")
-        if not all(isinstance(x, valid_types) for x in output):
+        if not all(_is_instance(x, valid_types) for x in output):
             raise ValueError(
                 f"Cannot convert value '{value}' to a list of '{valid_types}', got {output}")
         return output
-- 
2.43.0


From 1d8173c2aae5f1c2d798d82c79d685a2eed07d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:07 +0000
Subject: [PATCH 25/51] fix: leading and escaped spaces of a command line do
 not make extra words

---
 launch/launch/actions/execute_process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/launch/launch/actions/execute_process.py b/launch/launch/actions/execute_process.py
index c780af7..0bf8ec8 100644
--- a/launch/launch/actions/execute_process.py
+++ b/launch/launch/actions/execute_process.py
@@ -268,7 +268,8 @@ class ExecuteProcess(ExecuteLocal):
                     # Appending args allow splitting two substitutions
                     # separated by a space.
                     # e.g.: `$(subst1 asd) $(subst2 bsd)` will be two separate arguments.
-                    _append_arg()
+                    if len(arg) != 0:
+                        _append_arg()
                     continue
                 if sub.text[0].isspace():
                     # Needed for splitting from the previous argument
@@ -289,7 +290,8 @@ class ExecuteProcess(ExecuteLocal):
                     # e.g. `$(find-pkg-prefix csd)/asd bsd dsd xsd`
                     # 'bsd' 'dsd' will be added.
                     result_args.extend([TextSubstitution(text=x)] for x in tokens[1:-1])
-                if sub.text[-1].isspace():
+                if len(shlex.split(sub.text + 'x')) > len(tokens):
+                    # The text ends with a space which is neither quoted nor escaped.
                     # Allows splitting from next argument.
                     # e.g. `exec $(find-some-file)`
                     # Will split `exec` argument from the result of `find-some-file` substitution.
-- 
2.43.0


From b8fe2508d254c77034970ec37bffe4e0ca423ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:40 +0000
Subject: [PATCH 26/51] fix: any and all substitutions can be used in launch
 files

---
 launch/launch/substitutions/boolean_substitution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/launch/launch/substitutions/boolean_substitution.py b/launch/launch/substitutions/boolean_substitution.py
index 14b57ae..9da4f74 100644
--- a/launch/launch/substitutions/boolean_substitution.py
+++ b/launch/launch/substitutions/boolean_substitution.py
@@ -177,7 +177,8 @@ class AnySubstitution(Substitution):
     @classmethod
     def parse(cls, data: Iterable[SomeSubstitutionsType]):
         """Parse `AnySubstitution` substitution."""
-        return cls, {'args': data}
+        # The arguments are positional ones.
+        return lambda args: cls(*args), {'args': data}
 
     @property
     def args(self) -> List[List[Substitution]]:
@@ -223,7 +224,8 @@ class AllSubstitution(Substitution):
     @classmethod
     def parse(cls, data: Iterable[SomeSubstitutionsType]):
         """Parse `AllSubstitution` substitution."""
-        return cls, {'args': data}
+        # The arguments are positional ones.
+        return lambda args: cls(*args), {'args': data}
 
     @property
     def args(self) -> List[List[Substitution]]:
-- 
2.43.0


From 189e2c302362b95726e7d87de6e2ed5f28ee24f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 27/51] fix: an empty list is accepted where a list of a type
 is required

---
 launch/launch/utilities/type_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/launch/launch/utilities/type_utils.py b/launch/launch/utilities/type_utils.py
index b2e9454..3b6bd5d 100644
--- a/launch/launch/utilities/type_utils.py
+++ b/launch/launch/utilities/type_utils.py
@@ -464,6 +464,10 @@ def normalize_typed_substitution(
             f"Got value='{value}', data_type='{data_type}'."
         )
 
+    # An empty list is a list of anything
+    if not types_in_list:
+        return []
+
     # Normalize each specific uniform list input
     err_msg = (
         "Got a list of '{}'"
-- 
2.43.0


From 85c8d72583e29e7cddc9bd3f915df1fa1f4a73be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:54 +0000
Subject: [PATCH 28/51] fix: only one of several waiting threads was woken up

---
 launch_testing/launch_testing/io_handler.py        | 4 ++--
 launch_testing/launch_testing/proc_info_handler.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/launch_testing/launch_testing/io_handler.py b/launch_testing/launch_testing/io_handler.py
index ee233a6..b818f44 100644
--- a/launch_testing/launch_testing/io_handler.py
+++ b/launch_testing/launch_testing/io_handler.py
@@ -102,12 +102,12 @@ class ActiveIoHandler:
     def track(self, process_name):
         with self._sync_lock:
             self._io_handler.track(process_name)
-            self._sync_lock.notify()
+            self._sync_lock.notify_all()
 
     def append(self, process_io):
         with self._sync_lock:
             self._io_handler.append(process_io)
-            self._sync_lock.notify()
+            self._sync_lock.notify_all()
 
     def __iter__(self):
         with self._sync_lock:
diff --git a/launch_testing/launch_testing/proc_info_handler.py b/launch_testing/launch_testing/proc_info_handler.py
index 08c28a7..7d15a41 100644
--- a/launch_testing/launch_testing/proc_info_handler.py
+++ b/launch_testing/launch_testing/proc_info_handler.py
@@ -83,7 +83,7 @@ class ActiveProcInfoHandler:
     def append(self, process_info):
         with self._sync_lock:
             self._proc_info_handler.append(process_info)
-            self._sync_lock.notify()
+            self._sync_lock.notify_all()
 
     def __iter__(self):
         with self._sync_lock:
-- 
2.43.0


From 07f4915a81cc54282e329247ca17d61a59fa6fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:54 +0000
Subject: [PATCH 29/51] fix: a process starting while process information is
 iterated raised an error

---
 launch_testing/launch_testing/proc_info_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/proc_info_handler.py b/launch_testing/launch_testing/proc_info_handler.py
index 7d15a41..8844720 100644
--- a/launch_testing/launch_testing/proc_info_handler.py
+++ b/launch_testing/launch_testing/proc_info_handler.py
@@ -87,7 +87,7 @@ class ActiveProcInfoHandler:
 
     def __iter__(self):
         with self._sync_lock:
-            return self._proc_info_handler.__iter__()
+            return list(self._proc_info_handler).__iter__()
 
     def processes(self):
         """
-- 
2.43.0


From 3a278401575efef7ccee679ce3ab784160b2063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:54 +0000
Subject: [PATCH 30/51] fix: output with a character split between two chunks
 could not be searched

---
 .../launch_testing/asserts/assert_output.py      |  5 +++--
 .../asserts/assert_sequential_output.py          |  3 ++-
 launch_testing/launch_testing/tools/process.py   |  7 ++++---
 launch_testing/launch_testing/tools/text.py      | 16 +++++++++++++++-
 4 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/launch_testing/launch_testing/asserts/assert_output.py b/launch_testing/launch_testing/asserts/assert_output.py
index 244126e..7198f2c 100644
--- a/launch_testing/launch_testing/asserts/assert_output.py
+++ b/launch_testing/launch_testing/asserts/assert_output.py
@@ -23,6 +23,7 @@ further reference.
 from osrf_pycommon.terminal_color import remove_ansi_escape_sequences
 
 from ..tools.text import build_text_match
+from ..tools.text import decode_output
 from ..util import resolveProcesses
 
 
@@ -83,11 +84,11 @@ def assertInStream(proc_output,
     for proc in resolved_procs:  # Nominally just one matching proc
         if stream == 'stdout':
             full_output = ''.join(
-                output.text.decode() for output in proc_output[proc] if output.from_stdout
+                decode_output(output for output in proc_output[proc] if output.from_stdout)
             )
         elif stream == 'stderr':
             full_output = ''.join(
-                output.text.decode() for output in proc_output[proc] if output.from_stderr
+                decode_output(output for output in proc_output[proc] if output.from_stderr)
             )
         else:
             raise ValueError("Invalid value for stream; must be 'stdout' or 'stderr'")
diff --git a/launch_testing/launch_testing/asserts/assert_sequential_output.py b/launch_testing/launch_testing/asserts/assert_sequential_output.py
index 35c1a82..924a2af 100644
--- a/launch_testing/launch_testing/asserts/assert_sequential_output.py
+++ b/launch_testing/launch_testing/asserts/assert_sequential_output.py
@@ -23,6 +23,7 @@ further reference.
 
 from contextlib import contextmanager
 
+from ..tools.text import decode_output
 from ..util import resolveProcesses
 
 
@@ -127,7 +128,7 @@ def assertSequentialStdout(proc_output,
 
     # Get all the output from the process.  This will be a list of strings.  Each string may
     # contain multiple lines of output
-    to_check = [p.text.decode() for p in proc_output[process]]
+    to_check = decode_output(proc_output[process])
     checker = SequentialTextChecker(to_check)
 
     try:
diff --git a/launch_testing/launch_testing/tools/process.py b/launch_testing/launch_testing/tools/process.py
index 5c71c09..2112038 100644
--- a/launch_testing/launch_testing/tools/process.py
+++ b/launch_testing/launch_testing/tools/process.py
@@ -21,6 +21,7 @@ from launch.utilities import ensure_argument_type
 
 from ..io_handler import ActiveIoHandler
 from ..proc_info_handler import ActiveProcInfoHandler
+from .text import decode_output
 
 
 class ProcessProxy:
@@ -109,7 +110,7 @@ class ProcessProxy:
     @property
     def stderr(self):
         output_events = self._proc_output[self._process_action]
-        output_text = ''.join(ev.text.decode() for ev in output_events if ev.from_stderr)
+        output_text = ''.join(decode_output(ev for ev in output_events if ev.from_stderr))
         if self._output_filter is not None:
             output_text = self._output_filter(output_text)
         return output_text
@@ -117,7 +118,7 @@ class ProcessProxy:
     @property
     def stdout(self):
         output_events = self._proc_output[self._process_action]
-        output_text = ''.join(ev.text.decode() for ev in output_events if ev.from_stdout)
+        output_text = ''.join(decode_output(ev for ev in output_events if ev.from_stdout))
         if self._output_filter is not None:
             output_text = self._output_filter(output_text)
         return output_text
@@ -125,7 +126,7 @@ class ProcessProxy:
     @property
     def output(self):
         output_events = self._proc_output[self._process_action]
-        output_text = ''.join(ev.text.decode() for ev in output_events)
+        output_text = ''.join(decode_output(output_events))
         if self._output_filter is not None:
             output_text = self._output_filter(output_text)
         return output_text
diff --git a/launch_testing/launch_testing/tools/text.py b/launch_testing/launch_testing/tools/text.py
index 61fdd7a..6fe6dcb 100644
--- a/launch_testing/launch_testing/tools/text.py
+++ b/launch_testing/launch_testing/tools/text.py
@@ -12,11 +12,25 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import codecs
 from collections.abc import Iterable
-
 import os
 
 
+def decode_output(process_ios):
+    """
+    Decode the text of captured process output, in order.
+
+    A character may be split between two chunks of a stream, its text is then part of the second.
+
+    :param process_ios: the captured `launch.events.process.ProcessIO` events of one process
+    :return: one text per event
+    """
+    decoder = codecs.getincrementaldecoder('utf-8')
+    decoders = {True: decoder(errors='replace'), False: decoder(errors='replace')}
+    return [decoders[io.from_stdout].decode(io.text) for io in process_ios]
+
+
 def normalize_lineseps(lines):
     r"""Normalize and then return the given lines to all use '\n'."""
     lines = lines.replace(os.linesep, '\n')
-- 
2.43.0


From fa8633899e4b2c9717e5feff05a2ef323c4e2193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:12 +0000
Subject: [PATCH 31/51] fix: text split between two chunks was not found in
 sequential output

---
 .../asserts/assert_sequential_output.py               | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/launch_testing/launch_testing/asserts/assert_sequential_output.py b/launch_testing/launch_testing/asserts/assert_sequential_output.py
index 924a2af..f0f2e17 100644
--- a/launch_testing/launch_testing/asserts/assert_sequential_output.py
+++ b/launch_testing/launch_testing/asserts/assert_sequential_output.py
@@ -22,6 +22,7 @@ further reference.
 
 
 from contextlib import contextmanager
+import itertools
 
 from ..tools.text import decode_output
 from ..util import resolveProcesses
@@ -127,8 +128,14 @@ def assertSequentialStdout(proc_output,
     )[0]
 
     # Get all the output from the process.  This will be a list of strings.  Each string may
-    # contain multiple lines of output
-    to_check = decode_output(proc_output[process])
+    # contain multiple lines of output.  A text may be split between chunks of the same stream, so
+    # those that follow each other are joined
+    output = proc_output[process]
+    texts = zip((io.from_stdout for io in output), decode_output(output))
+    to_check = [
+        ''.join(text for _, text in chunks)
+        for _, chunks in itertools.groupby(texts, key=lambda item: item[0])
+    ]
     checker = SequentialTextChecker(to_check)
 
     try:
-- 
2.43.0


From e1aaa76b6add37b62a5ad947be72ddbcc50eb37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:12 +0000
Subject: [PATCH 32/51] fix: a ready text split between two chunks was not
 noticed

---
 .../event_handlers/stdout_ready_listener.py         | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/event_handlers/stdout_ready_listener.py b/launch_testing/launch_testing/event_handlers/stdout_ready_listener.py
index af02ba5..8455b9b 100644
--- a/launch_testing/launch_testing/event_handlers/stdout_ready_listener.py
+++ b/launch_testing/launch_testing/event_handlers/stdout_ready_listener.py
@@ -12,6 +12,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import codecs
+from typing import Dict
 from typing import List
 from typing import Optional
 from typing import Text
@@ -40,6 +42,8 @@ class StdoutReadyListener(OnProcessIO):
     ):
         self.__ready_txt = ready_txt
         self.__actions = actions
+        self.__decoders: Dict[int, codecs.IncrementalDecoder] = {}
+        self.__tails: Dict[int, Text] = {}
 
         super().__init__(
             target_action=target_action,
@@ -47,7 +51,14 @@ class StdoutReadyListener(OnProcessIO):
         )
 
     def __on_stdout(self, process_io):
-        if self.__ready_txt in process_io.text.decode():
+        # The text, or one of its characters, may be split between chunks
+        decoder = self.__decoders.get(process_io.pid)
+        if decoder is None:
+            decoder = codecs.getincrementaldecoder('utf-8')(errors='replace')
+            self.__decoders[process_io.pid] = decoder
+        text = self.__tails.get(process_io.pid, '') + decoder.decode(process_io.text)
+        self.__tails[process_io.pid] = text[max(0, len(text) - len(self.__ready_txt) + 1):]
+        if self.__ready_txt in text:
             return self.__actions
 
     def describe(self) -> Tuple[Text, List[SomeEntitiesType]]:
-- 
2.43.0


From 7e9808cabe1b548171d830410610d35b3c70f7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:12 +0000
Subject: [PATCH 33/51] fix: waiting for output of a process ignored output of
 a finished process

---
 launch_testing/launch_testing/tools/process.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/launch_testing/launch_testing/tools/process.py b/launch_testing/launch_testing/tools/process.py
index 2112038..2c785ef 100644
--- a/launch_testing/launch_testing/tools/process.py
+++ b/launch_testing/launch_testing/tools/process.py
@@ -72,7 +72,7 @@ class ProcessProxy:
         :return: whether the condition has been satisfied or not.
         """
         if condition is None:
-            condition = (lambda output: True)
+            condition = (lambda output: len(output) > 0)
         if not callable(condition):
             raise TypeError(
                 "Expected 'condition' to be callable but got '{!r}'".format(condition)
@@ -99,7 +99,7 @@ class ProcessProxy:
 
         with self._proc_output.io_event:
             bool_result = self._proc_output.io_event.wait_for(
-                lambda: self.running and condition(remember_output()), timeout=timeout
+                lambda: self.launched and condition(remember_output()), timeout=timeout
             )
             return BoolWithText(bool_result, actual_output)
 
@@ -131,6 +131,10 @@ class ProcessProxy:
             output_text = self._output_filter(output_text)
         return output_text
 
+    @property
+    def launched(self):
+        return self._process_action in self._proc_info.processes()
+
     @property
     def running(self):
         if self._process_action not in self._proc_info.processes():
-- 
2.43.0


From 503615551775f82505accdce973b6cbd8cfbf42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:12 +0000
Subject: [PATCH 34/51] fix: a launch that died was not reported if a process
 printed something else than ASCII

---
 launch_testing/launch_testing/test_runner.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/launch_testing/launch_testing/test_runner.py b/launch_testing/launch_testing/test_runner.py
index 5a1de18..4db0d77 100644
--- a/launch_testing/launch_testing/test_runner.py
+++ b/launch_testing/launch_testing/test_runner.py
@@ -23,6 +23,7 @@ from launch.actions import RegisterEventHandler
 from launch.event_handlers import OnProcessExit
 from launch.event_handlers import OnProcessIO
 from launch.event_handlers import OnProcessStart
+from launch.events.process import ProcessExited
 
 from .io_handler import ActiveIoHandler
 from .parse_arguments import parse_launch_arguments
@@ -203,14 +204,17 @@ class _RunnerWorker():
             self._launch_service.shutdown()
 
     def _print_process_output_summary(self, proc_info, proc_output):
-        failed_procs = [proc for proc in proc_info if proc.returncode != 0]
+        failed_procs = [
+            proc for proc in proc_info
+            if isinstance(proc, ProcessExited) and proc.returncode != 0
+        ]
 
         for process in failed_procs:
             print("Process '{}' exited with {}".format(process.process_name, process.returncode))
             print("##### '{}' output #####".format(process.process_name))
             try:
                 for io in proc_output[process.action]:
-                    print('{}'.format(io.text.decode('ascii')))
+                    print('{}'.format(io.text.decode(errors='replace')))
             except KeyError:
                 pass  # Process generated no output
             print('#' * (len(process.process_name) + 21))
-- 
2.43.0


From 996592fda69aa757ed7d268889b02451f8b4c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:31 +0000
Subject: [PATCH 35/51] fix: retrying a test removed the errors of the tests
 before it

---
 launch_testing/launch_testing/markers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/launch_testing/launch_testing/markers.py b/launch_testing/launch_testing/markers.py
index d070967..23c76d9 100644
--- a/launch_testing/launch_testing/markers.py
+++ b/launch_testing/launch_testing/markers.py
@@ -42,6 +42,8 @@ def retry_on_failure(*, times, delay=None):
         @functools.wraps(func)
         def _wrapper(self, *args, **kwargs):
             n = times
+            result = getattr(self._outcome, 'result', None)
+            earlier = len(result.errors) if result is not None else 0
             while n > 1:
                 try:
                     ret = func(self, *args, **kwargs)
@@ -52,8 +54,9 @@ def retry_on_failure(*, times, delay=None):
                     if hasattr(self._outcome, 'errors'):
                         self._outcome.errors.clear()
                     else:
-                        if self._outcome.result is not None:
-                            self._outcome.result.errors.clear()
+                        if result is not None:
+                            # Those of other tests are kept
+                            del result.errors[earlier:]
                     self._outcome.success = True
                     n -= 1
                 if delay is not None:
-- 
2.43.0


From db58c801ff02837938d4dee3a85c06c8d92405df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:24 +0000
Subject: [PATCH 36/51] fix: waiting for output without a timeout raised an
 error

---
 launch_pytest/launch_pytest/tools/process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/launch_pytest/launch_pytest/tools/process.py b/launch_pytest/launch_pytest/tools/process.py
index 274044b..4de5959 100644
--- a/launch_pytest/launch_pytest/tools/process.py
+++ b/launch_pytest/launch_pytest/tools/process.py
@@ -53,7 +53,8 @@ async def _wait_for_event_with_condition(
         now = start
         while not cond_value and (timeout is None or now < start + timeout):
             try:
-                await asyncio.wait_for(pyevent.wait(), start - now + timeout)
+                await asyncio.wait_for(
+                    pyevent.wait(), None if timeout is None else start - now + timeout)
             except asyncio.TimeoutError:
                 break
             pyevent.clear()
@@ -81,7 +82,7 @@ def _wait_for_event_with_condition_sync(
         start = time.time()
         now = start
         while not cond_value and (timeout is None or now < start + timeout):
-            pyevent.wait(start - now + timeout)
+            pyevent.wait(None if timeout is None else start - now + timeout)
             pyevent.clear()
             cond_value = condition()
             now = time.time()
-- 
2.43.0


From d02a46ae03ad8d744f00d324db848847296432d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:24 +0000
Subject: [PATCH 37/51] fix: output arriving when a wait for it starts could be
 missed

---
 launch_pytest/launch_pytest/tools/process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/launch_pytest/launch_pytest/tools/process.py b/launch_pytest/launch_pytest/tools/process.py
index 4de5959..e11a97b 100644
--- a/launch_pytest/launch_pytest/tools/process.py
+++ b/launch_pytest/launch_pytest/tools/process.py
@@ -47,8 +47,9 @@ async def _wait_for_event_with_condition(
 ):
     pyevent = asyncio.Event()
     event_handler = get_launch_event_handler(execute_process_action, pyevent)
-    cond_value = condition()
     with register_event_handler(launch_context, event_handler):
+        # Only now, else output arriving before the registration would not be noticed
+        cond_value = condition()
         start = time.time()
         now = start
         while not cond_value and (timeout is None or now < start + timeout):
@@ -77,8 +78,9 @@ def _wait_for_event_with_condition_sync(
 ):
     pyevent = threading.Event()
     event_handler = get_launch_event_handler(execute_process_action, pyevent)
-    cond_value = condition()
     with register_event_handler(launch_context, event_handler):
+        # Only now, else output arriving before the registration would not be noticed
+        cond_value = condition()
         start = time.time()
         now = start
         while not cond_value and (timeout is None or now < start + timeout):
-- 
2.43.0


From 5d2afd1a933ce8f0227179eb1739d991811210f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:24 +0000
Subject: [PATCH 38/51] fix: waiting for the start or exit of a process missed
 what happened before the wait

---
 launch_pytest/launch_pytest/tools/process.py | 29 ++++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/launch_pytest/launch_pytest/tools/process.py b/launch_pytest/launch_pytest/tools/process.py
index e11a97b..27a09f6 100644
--- a/launch_pytest/launch_pytest/tools/process.py
+++ b/launch_pytest/launch_pytest/tools/process.py
@@ -30,11 +30,13 @@ def register_event_handler(context, event_handler):
 
 
 async def _wait_for_event(
-    launch_context, execute_process_action, get_launch_event_handler, timeout=None
+    launch_context, execute_process_action, get_launch_event_handler, happened, timeout=None
 ):
     pyevent = asyncio.Event()
     event_handler = get_launch_event_handler(execute_process_action, pyevent)
     with register_event_handler(launch_context, event_handler):
+        if happened(execute_process_action):
+            return True
         try:
             await asyncio.wait_for(pyevent.wait(), timeout)
         except asyncio.TimeoutError:
@@ -65,11 +67,13 @@ async def _wait_for_event_with_condition(
 
 
 def _wait_for_event_sync(
-    launch_context, execute_process_action, get_launch_event_handler, timeout=None
+    launch_context, execute_process_action, get_launch_event_handler, happened, timeout=None
 ):
     pyevent = threading.Event()
     event_handler = get_launch_event_handler(execute_process_action, pyevent)
     with register_event_handler(launch_context, event_handler):
+        if happened(execute_process_action):
+            return True
         return pyevent.wait(timeout)
 
 
@@ -221,6 +225,15 @@ def assert_stderr_sync(
         validate_output(execute_process_action.get_stderr())
 
 
+def _has_started(execute_process_action):
+    details = execute_process_action.process_details
+    return details is not None and 'pid' in details
+
+
+def _has_exited(execute_process_action):
+    return execute_process_action.return_code is not None
+
+
 def _get_on_process_start_event_handler(execute_process_action, pyevent):
     return event_handlers.OnProcessStart(
         target_action=execute_process_action, on_start=lambda _1, _2: pyevent.set())
@@ -230,14 +243,16 @@ async def wait_for_start(
     launch_context, execute_process_action, timeout=None
 ):
     return await _wait_for_event(
-        launch_context, execute_process_action, _get_on_process_start_event_handler, timeout)
+        launch_context, execute_process_action, _get_on_process_start_event_handler,
+        _has_started, timeout)
 
 
 def wait_for_start_sync(
     launch_context, execute_process_action, timeout=None
 ):
     return _wait_for_event_sync(
-        launch_context, execute_process_action, _get_on_process_start_event_handler, timeout)
+        launch_context, execute_process_action, _get_on_process_start_event_handler,
+        _has_started, timeout)
 
 
 def _get_on_process_exit_event_handler(execute_process_action, pyevent):
@@ -249,11 +264,13 @@ async def wait_for_exit(
     launch_context, execute_process_action, timeout=None
 ):
     return await _wait_for_event(
-        launch_context, execute_process_action, _get_on_process_exit_event_handler, timeout)
+        launch_context, execute_process_action, _get_on_process_exit_event_handler,
+        _has_exited, timeout)
 
 
 def wait_for_exit_sync(
     launch_context, execute_process_action, timeout=None
 ):
     return _wait_for_event_sync(
-        launch_context, execute_process_action, _get_on_process_exit_event_handler, timeout)
+        launch_context, execute_process_action, _get_on_process_exit_event_handler,
+        _has_exited, timeout)
-- 
2.43.0


From 8247798c25c00199d81c3da9a578d12b2a59337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:24 +0000
Subject: [PATCH 39/51] fix: a pattern could not be expected in output lines

---
 launch_testing/launch_testing/tools/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/tools/text.py b/launch_testing/launch_testing/tools/text.py
index 6fe6dcb..e96fc1d 100644
--- a/launch_testing/launch_testing/tools/text.py
+++ b/launch_testing/launch_testing/tools/text.py
@@ -63,7 +63,7 @@ def build_line_match(expected_lines, *, strict=False):
         return _match
 
     if hasattr(expected_lines, 'match'):
-        def _match(actual_lines, start):
+        def _match(actual_lines, start=0):
             if strict:
                 if all(expected_lines.match(line) for line in actual_lines[start:]):
                     return start, start + len(actual_lines[start:])
-- 
2.43.0


From a7779ebe27b7760c87deeab43f4d6cc9e253db95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:54 +0000
Subject: [PATCH 40/51] fix: tests expected to fail were treated as if they
 were not

---
 launch_testing/launch_testing/loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/loader.py b/launch_testing/launch_testing/loader.py
index ceb13ae..b1a23e8 100644
--- a/launch_testing/launch_testing/loader.py
+++ b/launch_testing/launch_testing/loader.py
@@ -253,7 +253,10 @@ def _partially_bind_matching_args(unbound_function, arg_candidates):
     function_args = inspect.signature(unbound_function).parameters
     # We only want to bind the part of the context matches the test args
     matching_args = {k: v for (k, v) in arg_candidates.items() if k in function_args}
-    return functools.partial(unbound_function, **matching_args)
+    bound_function = functools.partial(unbound_function, **matching_args)
+    # Keep what decorators, like unittest.expectedFailure, noted about the function
+    bound_function.__dict__.update(getattr(unbound_function, '__dict__', {}))
+    return bound_function
 
 
 def _give_attribute_to_tests(data, attr_name, test_suite):
-- 
2.43.0


From 0a64adbd9762b6daa22cb36d9e227195b30806f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:57 +0000
Subject: [PATCH 41/51] fix: the reason of a shutdown in a launch file was not
 text

---
 launch/launch/actions/shutdown_action.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/launch/launch/actions/shutdown_action.py b/launch/launch/actions/shutdown_action.py
index 5450d3b..2c137b8 100644
--- a/launch/launch/actions/shutdown_action.py
+++ b/launch/launch/actions/shutdown_action.py
@@ -15,7 +15,6 @@
 """Module for the Shutdown action."""
 
 import logging
-from typing import Text
 
 from launch.frontend import Entity
 from launch.frontend import expose_action
@@ -25,6 +24,9 @@ from .emit_event import EmitEvent
 from ..events import Shutdown as ShutdownEvent
 from ..events.process import ProcessExited
 from ..launch_context import LaunchContext
+from ..some_substitutions_type import SomeSubstitutionsType
+from ..utilities import normalize_to_list_of_substitutions
+from ..utilities import perform_substitutions
 
 _logger = logging.getLogger(name='launch')
 
@@ -33,8 +35,14 @@ _logger = logging.getLogger(name='launch')
 class Shutdown(EmitEvent):
     """Action that shuts down a launched system by emitting Shutdown when executed."""
 
-    def __init__(self, *, reason: Text = 'reason not given', **kwargs):
-        super().__init__(event=ShutdownEvent(reason=reason), **kwargs)
+    def __init__(self, *, reason: SomeSubstitutionsType = 'reason not given', **kwargs):
+        if isinstance(reason, str):
+            super().__init__(event=ShutdownEvent(reason=reason), **kwargs)
+            self.__reason = None
+        else:
+            # What the reason says is known when the action is executed.
+            super().__init__(event=ShutdownEvent(), **kwargs)
+            self.__reason = normalize_to_list_of_substitutions(reason)
 
     @classmethod
     def parse(cls, entity: Entity, parser: Parser):
@@ -56,4 +64,8 @@ class Shutdown(EmitEvent):
             _logger.info('process[{}] was required: shutting down launched system'.format(
                 event.process_name))
 
-        super().execute(context)
+        if self.__reason is None:
+            super().execute(context)
+        else:
+            context.emit_event_sync(
+                ShutdownEvent(reason=perform_substitutions(context, self.__reason)))
-- 
2.43.0


From 31ac9502ae0cfe5c14911df02d1070965ddfaa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:57 +0000
Subject: [PATCH 42/51] fix: unknown attributes of choices in launch files were
 ignored

---
 launch/launch/actions/declare_launch_argument.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/launch/launch/actions/declare_launch_argument.py b/launch/launch/actions/declare_launch_argument.py
index d292abe..ab85e42 100644
--- a/launch/launch/actions/declare_launch_argument.py
+++ b/launch/launch/actions/declare_launch_argument.py
@@ -178,6 +178,8 @@ class DeclareLaunchArgument(Action):
             kwargs['choices'] = [
                 parser.escape_characters(choice.get_attr('value')) for choice in choices
             ]
+            for choice in choices:
+                choice.assert_entity_completely_parsed()
         return cls, kwargs
 
     @property
-- 
2.43.0


From f512f98bb95789d14e10a6ce452856a2809769b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:57 +0000
Subject: [PATCH 43/51] fix: text was accepted in launch files where a Boolean
 or a number is required

---
 launch/launch/actions/execute_process.py | 7 ++++---
 launch/launch/actions/group_action.py    | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/launch/launch/actions/execute_process.py b/launch/launch/actions/execute_process.py
index 0bf8ec8..b07741d 100644
--- a/launch/launch/actions/execute_process.py
+++ b/launch/launch/actions/execute_process.py
@@ -360,7 +360,7 @@ class ExecuteProcess(ExecuteLocal):
 
         if 'respawn_max_retries' not in ignore:
             respawn_max_retries = entity.get_attr('respawn_max_retries', data_type=int,
-                                                  optional=True)
+                                                  optional=True, can_be_str=False)
             if respawn_max_retries is not None:
                 kwargs['respawn_max_retries'] = respawn_max_retries
 
@@ -395,12 +395,13 @@ class ExecuteProcess(ExecuteLocal):
                 kwargs['sigterm_timeout'] = str(sigterm_timeout)
 
         if 'shell' not in ignore:
-            shell = entity.get_attr('shell', data_type=bool, optional=True)
+            shell = entity.get_attr('shell', data_type=bool, optional=True, can_be_str=False)
             if shell is not None:
                 kwargs['shell'] = shell
 
         if 'emulate_tty' not in ignore:
-            emulate_tty = entity.get_attr('emulate_tty', data_type=bool, optional=True)
+            emulate_tty = entity.get_attr('emulate_tty', data_type=bool, optional=True,
+                                          can_be_str=False)
             if emulate_tty is not None:
                 kwargs['emulate_tty'] = emulate_tty
 
diff --git a/launch/launch/actions/group_action.py b/launch/launch/actions/group_action.py
index 81b7b53..d3fc754 100644
--- a/launch/launch/actions/group_action.py
+++ b/launch/launch/actions/group_action.py
@@ -89,8 +89,9 @@ class GroupAction(Action):
     def parse(cls, entity: Entity, parser: Parser):
         """Return `GroupAction` action and kwargs for constructing it."""
         _, kwargs = super().parse(entity, parser)
-        scoped = entity.get_attr('scoped', data_type=bool, optional=True)
-        forwarding = entity.get_attr('forwarding', data_type=bool, optional=True)
+        scoped = entity.get_attr('scoped', data_type=bool, optional=True, can_be_str=False)
+        forwarding = entity.get_attr(
+            'forwarding', data_type=bool, optional=True, can_be_str=False)
         keeps = entity.get_attr('keep', data_type=List[Entity], optional=True)
         if scoped is not None:
             kwargs['scoped'] = scoped
-- 
2.43.0


From d891ed46029bc0d54e3dfe7aa7a9ff0d21b05ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:17 +0000
Subject: [PATCH 44/51] fix: a group in a YAML launch file ignored what to keep
 among its children

---
 launch/launch/actions/group_action.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/launch/launch/actions/group_action.py b/launch/launch/actions/group_action.py
index d3fc754..87d6615 100644
--- a/launch/launch/actions/group_action.py
+++ b/launch/launch/actions/group_action.py
@@ -104,8 +104,9 @@ class GroupAction(Action):
             }
             for e in keeps:
                 e.assert_entity_completely_parsed()
+        # (unless it was read above, a `keep` among the children is not ignored)
         kwargs['actions'] = [parser.parse_action(e) for e in entity.children
-                             if e.type_name != 'keep']
+                             if keeps is None or e.type_name != 'keep']
         return cls, kwargs
 
     def get_sub_entities(self) -> List[LaunchDescriptionEntity]:
-- 
2.43.0


From 8b59c30b5d6cc760705556acc574e2a64fa0a5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:31 +0000
Subject: [PATCH 45/51] fix: launch_pytest did not work with current versions
 of pytest

---
 launch_pytest/launch_pytest/fixture.py |  6 +++++-
 launch_pytest/launch_pytest/plugin.py  | 19 ++++++++++++++-----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/launch_pytest/launch_pytest/fixture.py b/launch_pytest/launch_pytest/fixture.py
index aec03c6..8e05f9f 100644
--- a/launch_pytest/launch_pytest/fixture.py
+++ b/launch_pytest/launch_pytest/fixture.py
@@ -141,7 +141,11 @@ def fixture(
             'shutdown_when_idle': shutdown_when_idle,
             'auto_shutdown': auto_shutdown,
         }
-        return pytest.fixture(*args, **kwargs)(fixture_function)
+        launch_fixture = pytest.fixture(*args, **kwargs)(fixture_function)
+        # Since pytest 8.4 this is not the decorated function.
+        launch_fixture._launch_pytest_fixture_options = (
+            fixture_function._launch_pytest_fixture_options)
+        return launch_fixture
     if decorated is None:
         return decorator
     return decorator(decorated)
diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index c63fcf0..8c6411e 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -163,6 +163,15 @@ def get_launch_test_fixture(item):
     return mark.kwargs.get('fixture')
 
 
+def get_fixture_scope(fixture):
+    """Return the scope of a pytest fixture."""
+    # The name of the attribute changed in pytest 8.4.
+    marker = getattr(fixture, '_fixture_function_marker', None)
+    if marker is None:
+        marker = fixture._pytestfixturefunction
+    return marker.scope
+
+
 def get_launch_test_fixturename(item):
     """Return the launch test fixture name, `None` if this isn't a launch test."""
     fixture = get_launch_test_fixture(item)
@@ -236,7 +245,7 @@ def pytest_pycollect_makeitem(collector, name, obj):
                 return [item]
             fixture = get_launch_test_fixture(item)
             fixturename = fixture.__name__
-            scope = fixture._pytestfixturefunction.scope
+            scope = get_fixture_scope(fixture)
             is_shutdown = has_shutdown_kwarg(item)
             items = generate_test_items(
                 collector, name, obj, fixturename, is_shutdown=is_shutdown, needs_renaming=False)
@@ -264,7 +273,7 @@ def is_same_launch_test_fixture(left_item, right_item):
         return False
     if lfn is not rfn:
         return False
-    if lfn._pytestfixturefunction.scope == 'function':
+    if get_fixture_scope(lfn) == 'function':
         return False
     name = lfn.__name__
 
@@ -326,7 +335,7 @@ def pytest_pyfunc_call(pyfuncitem):
         return
     shutdown_test = is_shutdown_test(pyfuncitem)
     fixture = get_launch_test_fixture(pyfuncitem)
-    scope = fixture._pytestfixturefunction.scope
+    scope = get_fixture_scope(fixture)
     event_loop = pyfuncitem.funcargs['event_loop']
     ls = pyfuncitem.funcargs['launch_service']
     auto_shutdown = fixture._launch_pytest_fixture_options['auto_shutdown']
@@ -345,7 +354,7 @@ def pytest_pyfunc_call(pyfuncitem):
                 wrap_generator(func, event_loop, on_shutdown)
             )
             shutdown_item._fixtureinfo = shutdown_item.session._fixturemanager.getfixtureinfo(
-                shutdown_item, shutdown_item.obj, shutdown_item.cls, funcargs=True)
+                shutdown_item, shutdown_item.obj, shutdown_item.cls)
         else:
             pyfuncitem.obj = wrap_generator_fscope(func, event_loop, on_shutdown)
     elif inspect.isasyncgenfunction(func):
@@ -355,7 +364,7 @@ def pytest_pyfunc_call(pyfuncitem):
                 wrap_asyncgen(func, event_loop, on_shutdown)
             )
             shutdown_item._fixtureinfo = shutdown_item.session._fixturemanager.getfixtureinfo(
-                shutdown_item, shutdown_item.obj, shutdown_item.cls, funcargs=True)
+                shutdown_item, shutdown_item.obj, shutdown_item.cls)
         else:
             pyfuncitem.obj = wrap_asyncgen_fscope(func, event_loop, on_shutdown)
     elif not getattr(pyfuncitem.obj, '_launch_pytest_wrapped', False):
-- 
2.43.0


From 50c459c7beee5b82f2453c68924b7412c88e2c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:31 +0000
Subject: [PATCH 46/51] fix: tests after shutdown of a class ran with the
 launch of another class

---
 launch_pytest/launch_pytest/plugin.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index 8c6411e..5a2b1b9 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -273,7 +273,10 @@ def is_same_launch_test_fixture(left_item, right_item):
         return False
     if lfn is not rfn:
         return False
-    if get_fixture_scope(lfn) == 'function':
+    scope = get_fixture_scope(lfn)
+    if scope == 'function':
+        return False
+    if scope == 'class' and left_item.cls is not right_item.cls:
         return False
     name = lfn.__name__
 
-- 
2.43.0


From 9500ba7048005b45f074f317412bb299bdb6086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:12 +0000
Subject: [PATCH 47/51] fix: a launch ending before it is ready made
 launch_pytest wait for ever

---
 launch_pytest/launch_pytest/plugin.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index 5a2b1b9..b5286b4 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -120,11 +120,15 @@ def pytest_fixture_setup(fixturedef, request):
         ))
         ready = get_ready_to_test_action(ld)
         asyncio.set_event_loop(event_loop)
-        event = asyncio.Event()
-        ready._add_callback(lambda: event.set())
+        ready_future = event_loop.create_future()
+        ready._add_callback(lambda: ready_future.done() or ready_future.set_result(None))
         fixturedef.addfinalizer(functools.partial(
             finalize_launch_service, ls, eprefix=eprefix, auto_shutdown=options['auto_shutdown']))
-        run_until_complete(event_loop, event.wait())
+        # The launch may also end without ever getting ready.
+        run_until_complete(event_loop, asyncio.wait(
+            [ready_future, run_async_task], return_when=asyncio.FIRST_COMPLETED))
+        if not ready_future.done():
+            fail(f'{eprefix} the launch service finished before being ready to test', pytrace=False)
         # this is guaranteed by the current run_async() implementation, let's check it just in case
         # it changes in the future
         assert ls.event_loop is event_loop
-- 
2.43.0


From 1905f4c25c389a62e60508b36bf530bcc623e5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:29 +0000
Subject: [PATCH 48/51] Revert "fix: a launch that died was not reported if a
 process printed something else than ASCII"

This reverts commit 503615551775f82505accdce973b6cbd8cfbf42d.
---
 launch_testing/launch_testing/test_runner.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/launch_testing/launch_testing/test_runner.py b/launch_testing/launch_testing/test_runner.py
index 4db0d77..5a1de18 100644
--- a/launch_testing/launch_testing/test_runner.py
+++ b/launch_testing/launch_testing/test_runner.py
@@ -23,7 +23,6 @@ from launch.actions import RegisterEventHandler
 from launch.event_handlers import OnProcessExit
 from launch.event_handlers import OnProcessIO
 from launch.event_handlers import OnProcessStart
-from launch.events.process import ProcessExited
 
 from .io_handler import ActiveIoHandler
 from .parse_arguments import parse_launch_arguments
@@ -204,17 +203,14 @@ class _RunnerWorker():
             self._launch_service.shutdown()
 
     def _print_process_output_summary(self, proc_info, proc_output):
-        failed_procs = [
-            proc for proc in proc_info
-            if isinstance(proc, ProcessExited) and proc.returncode != 0
-        ]
+        failed_procs = [proc for proc in proc_info if proc.returncode != 0]
 
         for process in failed_procs:
             print("Process '{}' exited with {}".format(process.process_name, process.returncode))
             print("##### '{}' output #####".format(process.process_name))
             try:
                 for io in proc_output[process.action]:
-                    print('{}'.format(io.text.decode(errors='replace')))
+                    print('{}'.format(io.text.decode('ascii')))
             except KeyError:
                 pass  # Process generated no output
             print('#' * (len(process.process_name) + 21))
-- 
2.43.0


From c9a1c4e592d11de31cabf4514e54b9a9807b764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:37 +0000
Subject: [PATCH 49/51] fix: a launch that failed before its tests ended went
 unnoticed in launch_pytest

---
 launch_pytest/launch_pytest/fixture.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/launch_pytest/launch_pytest/fixture.py b/launch_pytest/launch_pytest/fixture.py
index 8e05f9f..9b95647 100644
--- a/launch_pytest/launch_pytest/fixture.py
+++ b/launch_pytest/launch_pytest/fixture.py
@@ -30,9 +30,10 @@ except ImportError:
 def finalize_launch_service(launch_service, eprefix='', auto_shutdown=True):
     if auto_shutdown:
         launch_service.shutdown(force_sync=True)
-    loop = launch_service.event_loop
-    if loop is not None and not loop.is_closed():
-        rc = loop.run_until_complete(launch_service.task)
+    # The launch may have finished by itself, it has no event loop any more then.
+    task = launch_service.task
+    if task is not None and not task.get_loop().is_closed():
+        rc = task.get_loop().run_until_complete(task)
         assert rc == 0, f"{eprefix} launch service failed when finishing, return code '{rc}'"
 
 
-- 
2.43.0


From 06bab2350fd042a752fe136930222076b3447f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:37 +0000
Subject: [PATCH 50/51] fix: tests ran without a launch if its setup had failed
 for another test

---
 launch_pytest/launch_pytest/plugin.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index b5286b4..9fc41f3 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -109,6 +109,7 @@ def pytest_fixture_setup(fixturedef, request):
             f'{eprefix} return value must be either a launch description '
             'or a sequence which first item is a launch description'
         )
+        ls._launch_pytest_is_ready = False
         ld = ret
         if isinstance(ret, Sequence):
             assert len(ret) > 0, wrong_ret_type_error
@@ -134,6 +135,7 @@ def pytest_fixture_setup(fixturedef, request):
         assert ls.event_loop is event_loop
         assert ls.context.asyncio_loop is event_loop
         assert ls.task is run_async_task
+        ls._launch_pytest_is_ready = True
         return
     yield
 
@@ -340,11 +342,15 @@ def pytest_pyfunc_call(pyfuncitem):
         fail(error_msg)
         yield
         return
+    ls = pyfuncitem.funcargs['launch_service']
+    if not getattr(ls, '_launch_pytest_is_ready', False):
+        # Setting up the launch failed when running a previous test sharing it.
+        fail(f'the launch service for test {func.__name__} did not become ready to test',
+             pytrace=False)
     shutdown_test = is_shutdown_test(pyfuncitem)
     fixture = get_launch_test_fixture(pyfuncitem)
     scope = get_fixture_scope(fixture)
     event_loop = pyfuncitem.funcargs['event_loop']
-    ls = pyfuncitem.funcargs['launch_service']
     auto_shutdown = fixture._launch_pytest_fixture_options['auto_shutdown']
     on_shutdown = functools.partial(
         finalize_launch_service,
-- 
2.43.0


From f51a66f7e651da5d607706ce552ff46b7d4b994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:37 +0000
Subject: [PATCH 51/51] fix: a generator test which does not yield made
 launch_pytest wait for ever

---
 launch_pytest/launch_pytest/plugin.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index 9fc41f3..d35ae46 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -129,7 +129,9 @@ def pytest_fixture_setup(fixturedef, request):
         run_until_complete(event_loop, asyncio.wait(
             [ready_future, run_async_task], return_when=asyncio.FIRST_COMPLETED))
         if not ready_future.done():
-            fail(f'{eprefix} the launch service finished before being ready to test', pytrace=False)
+            fail(
+                f'{eprefix} the launch service finished before being ready to test',
+                pytrace=False)
         # this is guaranteed by the current run_async() implementation, let's check it just in case
         # it changes in the future
         assert ls.event_loop is event_loop
@@ -419,6 +421,18 @@ def wrap_func(func, event_loop, before_test):
     return inner
 
 
+def start_generator(gen):
+    """Run the generator until its first yield, to be executed in a separate thread."""
+    try:
+        next(gen)
+    except StopIteration:
+        # StopIteration cannot be set as the exception of a future.
+        fail(
+            'launch tests using a generator function must yield once',
+            pytrace=False
+        )
+
+
 def wrap_generator(func, event_loop, on_shutdown):
     """Return wrappers for the normal test and the teardown test for a generator function."""
     gen = None
@@ -443,7 +457,7 @@ def wrap_generator(func, event_loop, on_shutdown):
     def inner(**kwargs):
         nonlocal gen
         local_gen = func(**kwargs)
-        future = event_loop.run_in_executor(None, lambda: next(local_gen))
+        future = event_loop.run_in_executor(None, functools.partial(start_generator, local_gen))
         run_until_complete(event_loop, future)
         gen = local_gen
 
@@ -455,7 +469,7 @@ def wrap_generator_fscope(func, event_loop, on_shutdown):
     @functools.wraps(func)
     def inner(**kwargs):
         gen = func(**kwargs)
-        future = event_loop.run_in_executor(None, lambda: next(gen))
+        future = event_loop.run_in_executor(None, functools.partial(start_generator, gen))
         run_until_complete(event_loop, future)
         on_shutdown()
         try:
-- 
2.43.0

