From 2cebbbfb3cf47c9483ed04c20338a0c43702451a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 01/62] fix: restore the locals of the context when an event
 handler or its entities raise

---
 launch/launch/launch_service.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index defd771..1385aed 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -236,19 +236,21 @@ class LaunchService:
                 self.__logger.debug(
                     "processing event: '{}' ✓ '{}'".format(event, event_handler))
                 self.__context._push_locals()
-                entities = event_handler.handle(event, self.__context)
-                entities = \
-                    entities if isinstance(entities, collections.abc.Iterable) else (entities,)
-                for entity in [e for e in entities if e is not None]:
-                    from .utilities import is_a_subclass
-                    if not is_a_subclass(entity, LaunchDescriptionEntity):
-                        raise RuntimeError(
-                            "expected a LaunchDescriptionEntity from event_handler, got '{}'"
-                            .format(entity)
-                        )
-                    self._entity_future_pairs.extend(
-                        visit_all_entities_and_collect_futures(entity, self.__context))
-                self.__context._pop_locals()
+                try:
+                    entities = event_handler.handle(event, self.__context)
+                    entities = \
+                        entities if isinstance(entities, collections.abc.Iterable) else (entities,)
+                    for entity in [e for e in entities if e is not None]:
+                        from .utilities import is_a_subclass
+                        if not is_a_subclass(entity, LaunchDescriptionEntity):
+                            raise RuntimeError(
+                                "expected a LaunchDescriptionEntity from event_handler, got '{}'"
+                                .format(entity)
+                            )
+                        self._entity_future_pairs.extend(
+                            visit_all_entities_and_collect_futures(entity, self.__context))
+                finally:
+                    self.__context._pop_locals()
             else:
                 pass
                 # Keep this commented for now, since it's very chatty.
-- 
2.43.0


From a799b5e294843dd80f381e7f193035110af77a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 02/62] fix: do not abort the run when the future of an action
 is cancelled

---
 launch/launch/launch_service.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 1385aed..222078e 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -331,6 +331,9 @@ class LaunchService:
                     # Propagate exception from completed tasks
                     exception_to_raise = None
                     for task in completed_tasks:
+                        if task.cancelled():
+                            # The action was cancelled, e.g. on shutdown; the run goes on.
+                            continue
                         exc = task.exception()
                         if exc is None:
                             continue
-- 
2.43.0


From eb1b336635b11727873ccd078fb0b405d3915366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 03/62] fix: a refused concurrent run must not reset the state
 of the active one

---
 launch/launch/launch_service.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 222078e..b678cff 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -152,13 +152,16 @@ class LaunchService:
 
     @contextlib.contextmanager
     def _prepare_run_loop(self):
+        # Refuse to run twice, before anything the active run relies on is touched.
+        with self.__loop_from_run_thread_lock:
+            if self.__loop_from_run_thread is not None:
+                raise RuntimeError(
+                    'LaunchService cannot be run multiple times concurrently.'
+                )
+
         try:
             # Acquire the lock and initialize the loop.
             with self.__loop_from_run_thread_lock:
-                if self.__loop_from_run_thread is not None:
-                    raise RuntimeError(
-                        'LaunchService cannot be run multiple times concurrently.'
-                    )
                 this_loop = osrf_pycommon.process_utils.get_loop()
 
                 if self.__debug:
-- 
2.43.0


From a54ea903e2dab39975a21191c1c72a322c77f3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 04/62] fix: start each run with a context that is not shut
 down

---
 launch/launch/launch_service.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index b678cff..cb00a89 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -169,6 +169,8 @@ class LaunchService:
 
                 # Set the asyncio loop for the context.
                 self.__context._set_asyncio_loop(this_loop)
+                # A previous run may have left the context shut down.
+                self.__context._set_is_shutdown(False)
                 # Recreate the event queue to ensure the same event loop is being used.
                 new_queue = asyncio.Queue()
                 while True:
-- 
2.43.0


From 059322e758036efc8d1a5271a0c664945c82490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 05/62] fix: do not hold the lock of the service while waiting
 for the loop to emit the shutdown event

---
 launch/launch/launch_service.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index cb00a89..4820a44 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -90,6 +90,7 @@ class LaunchService:
 
         # Used to indicate when shutdown() has been called.
         self.__shutting_down = False
+        self.__shutdown_requested = False
         self.__shutdown_when_idle = False
 
         # Used to keep track of whether or not there were unexpected exceptions.
@@ -229,6 +230,7 @@ class LaunchService:
                 self.__context._set_asyncio_loop(None)
                 self.__loop_from_run_thread = None
                 self.__shutting_down = False
+                self.__shutdown_requested = False
 
     async def _process_one_event(self) -> None:
         next_event = await self.__context._event_queue.get()
@@ -436,12 +438,14 @@ class LaunchService:
         This method is thread-safe.
         """
         with self.__loop_from_run_thread_lock:
-            if self.__loop_from_run_thread is not None:
-                return self._shutdown(
-                    reason='LaunchService.shutdown() called',
-                    due_to_sigint=False, force_sync=force_sync
-                )
-        return None
+            if self.__loop_from_run_thread is None or self.__shutdown_requested:
+                return None
+            self.__shutdown_requested = True
+        # The lock must not be held here, because this may wait for the loop to emit the event.
+        return self._shutdown(
+            reason='LaunchService.shutdown() called',
+            due_to_sigint=False, force_sync=force_sync
+        )
 
     @property
     def context(self):
-- 
2.43.0


From 24df675b66123f514189a2a11a86f55eec786107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 06/62] fix: arguments declared below a conditional entity are
 conditional at any depth

---
 launch/launch/launch_description.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch/launch/launch_description.py b/launch/launch/launch_description.py
index ac67de0..fff9bcf 100644
--- a/launch/launch/launch_description.py
+++ b/launch/launch/launch_description.py
@@ -150,7 +150,7 @@ class LaunchDescription(LaunchDescriptionEntity):
                         next_nested_ild_actions.append(entity)
                     process_entities(
                         entity.describe_sub_entities(),
-                        _conditional_inclusion=False,
+                        _conditional_inclusion=_conditional_inclusion,
                         nested_ild_actions=next_nested_ild_actions)
                     for conditional_sub_entity in entity.describe_conditional_sub_entities():
                         process_entities(
-- 
2.43.0


From 04701d5a5071365da541c6245660d0584f566256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 07/62] fix: check the arguments of an included description
 against the includes involved only

---
 .../launch/actions/include_launch_description.py  | 15 ++++++++++-----
 launch/launch/launch_description.py               |  4 +---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/launch/launch/actions/include_launch_description.py b/launch/launch/actions/include_launch_description.py
index d022d5e..64c9e2f 100644
--- a/launch/launch/actions/include_launch_description.py
+++ b/launch/launch/actions/include_launch_description.py
@@ -165,11 +165,16 @@ class IncludeLaunchDescription(Action):
         for argument, ild_actions in declared_launch_arguments:
             if argument._conditionally_included or argument.default_value is not None:
                 continue
-            argument_names = my_argument_names
-            if ild_actions is not None:
-                for ild_action in ild_actions:
-                    argument_names.extend(ild_action._try_get_arguments_names_without_context())
-            if argument.name not in argument_names:
+            argument_names = list(my_argument_names)
+            names_known = True
+            for ild_action in ild_actions or []:
+                nested_names = ild_action._try_get_arguments_names_without_context()
+                if nested_names is None:
+                    # Depends on the context, so it cannot be known yet what is passed.
+                    names_known = False
+                else:
+                    argument_names.extend(nested_names)
+            if names_known and argument.name not in argument_names:
                 raise RuntimeError(
                     "Included launch description missing required argument '{}' "
                     "(description: '{}'), given: [{}]"
diff --git a/launch/launch/launch_description.py b/launch/launch/launch_description.py
index fff9bcf..4605610 100644
--- a/launch/launch/launch_description.py
+++ b/launch/launch/launch_description.py
@@ -145,9 +145,7 @@ class LaunchDescription(LaunchDescriptionEntity):
                 else:
                     next_nested_ild_actions = nested_ild_actions
                     if isinstance(entity, IncludeLaunchDescription):
-                        if next_nested_ild_actions is None:
-                            next_nested_ild_actions = []
-                        next_nested_ild_actions.append(entity)
+                        next_nested_ild_actions = [*(nested_ild_actions or []), entity]
                     process_entities(
                         entity.describe_sub_entities(),
                         _conditional_inclusion=_conditional_inclusion,
-- 
2.43.0


From 87e357252bfe75bf20d90b048c2dada21857808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 08/62] fix: complete the action when the emulate_tty
 configuration is invalid instead of hanging

---
 launch/launch/actions/execute_local.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 9c53671..32de490 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -556,16 +556,16 @@ class ExecuteLocal(Action):
                 'True' if env is not None else 'False'
             ))
 
-        emulate_tty = self.__emulate_tty
-        if 'emulate_tty' in context.launch_configurations:
-            emulate_tty = evaluate_condition_expression(
-                context,
-                normalize_to_list_of_substitutions(
-                    context.launch_configurations['emulate_tty']
-                ),
-            )
-
         try:
+            emulate_tty = self.__emulate_tty
+            if 'emulate_tty' in context.launch_configurations:
+                emulate_tty = evaluate_condition_expression(
+                    context,
+                    normalize_to_list_of_substitutions(
+                        context.launch_configurations['emulate_tty']
+                    ),
+                )
+
             transport, self._subprocess_protocol = await async_execute_process(
                 lambda **kwargs: self.__ProcessProtocol(
                     self, context, process_event_args, **kwargs
-- 
2.43.0


From 2e611a92e2f26214fc9f430a1104e4871a2abe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 09/62] fix: shut down a process that is being respawned once
 it has started

---
 launch/launch/actions/execute_local.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 32de490..15fa627 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -223,6 +223,7 @@ class ExecuteLocal(Action):
         self.__stderr_buffer = io.StringIO()
 
         self.__executed = False
+        self.__respawning = False
 
     @property
     def process_description(self):
@@ -280,7 +281,11 @@ class ExecuteLocal(Action):
             return None
 
         # Defer shut down if the process is scheduled to be started
-        if (self.process_details is None or self._subprocess_transport is None):
+        if (
+            self.process_details is None or
+            self._subprocess_transport is None or
+            self.__respawning
+        ):
             # Do not set shutdown result, as event is postponed
             context.register_event_handler(
                 OnProcessStart(
@@ -586,6 +591,7 @@ class ExecuteLocal(Action):
 
         pid = transport.get_pid()
         self._subprocess_transport = transport
+        self.__respawning = False
 
         await context.emit_event(ProcessStarted(**process_event_args))
 
@@ -617,6 +623,8 @@ class ExecuteLocal(Action):
                     timeout=self.__respawn_delay
                 )
             if not self.__shutdown_future.done():
+                # Until then the transport is still the one of the process that exited.
+                self.__respawning = True
                 context.asyncio_loop.create_task(self.__execute_process(context))
                 return
         self.__cleanup()
-- 
2.43.0


From 11e3c81e9b3de2fffd10bbb12340d7cfec70acd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 10/62] fix: evaluate the period of a timer when it is
 executed, not later in its task

---
 launch/launch/actions/timer_action.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/launch/launch/actions/timer_action.py b/launch/launch/actions/timer_action.py
index ac9049c..74fd45f 100644
--- a/launch/launch/actions/timer_action.py
+++ b/launch/launch/actions/timer_action.py
@@ -82,6 +82,7 @@ class TimerAction(Action):
                 'passing a string literal was deprecated',
                 stacklevel=2)
         self.__period = type_utils.normalize_typed_substitution(period, float)
+        self.__performed_period: Optional[float] = None
         self.__actions = actions
         self.__context_locals: Dict[Text, Any] = {}
         self._completed_future: Optional[asyncio.Future] = None
@@ -94,7 +95,7 @@ class TimerAction(Action):
     async def _wait_to_fire_event(self, context):
         done, pending = await asyncio.wait(
             [self._canceled_future],
-            timeout=type_utils.perform_typed_substitution(context, self.__period, float),
+            timeout=self.__performed_period,
         )
         if not self._canceled_future.done():
             await context.emit_event(TimerEvent(timer_action=self))
@@ -177,6 +178,9 @@ class TimerAction(Action):
                 self._completed_future.set_result(None)
             return None
 
+        self.__performed_period = cast(
+            float, type_utils.perform_typed_substitution(context, self.__period, float))
+
         # Once per context, install the general purpose OnTimerEvent event handler.
         if not hasattr(context, '_TimerAction__event_handler_has_been_installed'):
             context.register_event_handler(EventHandler(
-- 
2.43.0


From 1877b74cd9addaaa598266ca01706cea01cb9431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 11/62] fix: do not execute the actions of a timer canceled
 while its event is queued

---
 launch/launch/actions/timer_action.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/launch/launch/actions/timer_action.py b/launch/launch/actions/timer_action.py
index 74fd45f..1e24042 100644
--- a/launch/launch/actions/timer_action.py
+++ b/launch/launch/actions/timer_action.py
@@ -139,6 +139,9 @@ class TimerAction(Action):
 
     def handle(self, context: LaunchContext) -> Optional[SomeEntitiesType]:
         """Handle firing of timer."""
+        if self.__canceled:
+            # Canceled after the event was emitted, but before it was handled.
+            return None
         context.extend_locals(self.__context_locals)
         return self.__actions
 
-- 
2.43.0


From 3c6729485c1b73b8af1c02ed2db2e35344b58b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 12/62] fix: no empty argument for leading whitespace before a
 substitution in a command

---
 launch/launch/actions/execute_process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/launch/launch/actions/execute_process.py b/launch/launch/actions/execute_process.py
index c780af7..7eb91cc 100644
--- a/launch/launch/actions/execute_process.py
+++ b/launch/launch/actions/execute_process.py
@@ -268,7 +268,8 @@ class ExecuteProcess(ExecuteLocal):
                     # Appending args allow splitting two substitutions
                     # separated by a space.
                     # e.g.: `$(subst1 asd) $(subst2 bsd)` will be two separate arguments.
-                    _append_arg()
+                    if len(arg) != 0:
+                        _append_arg()
                     continue
                 if sub.text[0].isspace():
                     # Needed for splitting from the previous argument
-- 
2.43.0


From ffd5a9f16da3864a10d7945759d1fa4b07d5c06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 13/62] fix: refuse text for the boolean and integer attributes
 of an executable

---
 launch/launch/actions/execute_process.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/launch/launch/actions/execute_process.py b/launch/launch/actions/execute_process.py
index 7eb91cc..4a64ff7 100644
--- a/launch/launch/actions/execute_process.py
+++ b/launch/launch/actions/execute_process.py
@@ -359,7 +359,7 @@ class ExecuteProcess(ExecuteLocal):
 
         if 'respawn_max_retries' not in ignore:
             respawn_max_retries = entity.get_attr('respawn_max_retries', data_type=int,
-                                                  optional=True)
+                                                  optional=True, can_be_str=False)
             if respawn_max_retries is not None:
                 kwargs['respawn_max_retries'] = respawn_max_retries
 
@@ -394,12 +394,14 @@ class ExecuteProcess(ExecuteLocal):
                 kwargs['sigterm_timeout'] = str(sigterm_timeout)
 
         if 'shell' not in ignore:
-            shell = entity.get_attr('shell', data_type=bool, optional=True)
+            shell = entity.get_attr(
+                'shell', data_type=bool, optional=True, can_be_str=False)
             if shell is not None:
                 kwargs['shell'] = shell
 
         if 'emulate_tty' not in ignore:
-            emulate_tty = entity.get_attr('emulate_tty', data_type=bool, optional=True)
+            emulate_tty = entity.get_attr(
+                'emulate_tty', data_type=bool, optional=True, can_be_str=False)
             if emulate_tty is not None:
                 kwargs['emulate_tty'] = emulate_tty
 
-- 
2.43.0


From 5b768ca4a8cc4b640c101ccad55adc10c0dd0876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 14/62] fix: accept an empty list or a one-time iterable as the
 actions of an event handler

---
 launch/launch/event_handlers/on_action_event_base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/launch/launch/event_handlers/on_action_event_base.py b/launch/launch/event_handlers/on_action_event_base.py
index b8178dc..aa73731 100644
--- a/launch/launch/event_handlers/on_action_event_base.py
+++ b/launch/launch/event_handlers/on_action_event_base.py
@@ -83,6 +83,8 @@ class OnActionEventBase(BaseEventHandler):
             assert action_matcher is None
             return True
         super().__init__(matcher=event_matcher, **kwargs)
+        self.__on_event: Optional[
+            Callable[[Event, LaunchContext], Optional[SomeEntitiesType]]] = None
         self.__actions_on_event: List[LaunchDescriptionEntity] = []
         # TODO(wjwwood) check that it is not only callable, but also a callable that matches
         # the correct signature for a handler in this case
@@ -94,12 +96,13 @@ class OnActionEventBase(BaseEventHandler):
         else:
             # Otherwise, setup self.__actions_on_event
             if isinstance(on_event, collections.abc.Iterable):
-                for entity in on_event:
+                # The list is made first, because the iterable may only be iterated once
+                self.__actions_on_event = list(on_event)
+                for entity in self.__actions_on_event:
                     if not isinstance(entity, LaunchDescriptionEntity):
                         raise TypeError(
                             "expected all items in 'on_event' iterable to be of type "
                             "'LaunchDescriptionEntity' but got '{}'".format(type(entity)))
-                self.__actions_on_event = list(on_event)  # Outside list is to ensure type is List
             else:
                 self.__actions_on_event = [on_event]
 
@@ -107,7 +110,7 @@ class OnActionEventBase(BaseEventHandler):
         """Handle the given event."""
         super().handle(event, context)
 
-        if self.__actions_on_event:
+        if self.__on_event is None:
             return self.__actions_on_event
         return self.__on_event(event, context)
 
@@ -124,7 +127,7 @@ class OnActionEventBase(BaseEventHandler):
         # TODO(jacobperron): revisit how to describe known actions that are passed in.
         #                    It would be nice if the parent class could output their description
         #                    via the 'entities' property.
-        if self.__actions_on_event:
+        if self.__on_event is None:
             return '<actions>'
         return '{}'.format(self.__on_event)
 
-- 
2.43.0


From 127ace634ca74738324bbd1d6d949e47f5f4a3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 15/62] fix: describe an event handler that is given a single
 entity

---
 launch/launch/event_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/launch/launch/event_handler.py b/launch/launch/event_handler.py
index b2f9839..77c7ef6 100644
--- a/launch/launch/event_handler.py
+++ b/launch/launch/event_handler.py
@@ -22,6 +22,7 @@ from typing import Tuple
 from typing import TYPE_CHECKING
 
 from .event import Event
+from .launch_description_entity import LaunchDescriptionEntity
 from .some_entities_type import SomeEntitiesType
 
 if TYPE_CHECKING:
@@ -132,7 +133,9 @@ class EventHandler(BaseEventHandler):
     def describe(self) -> Tuple[Text, List[SomeEntitiesType]]:
         """Return the description list with 0 as a string, and then LaunchDescriptionEntity's."""
         text, actions = super().describe()
-        if self.entities:
+        if isinstance(self.entities, LaunchDescriptionEntity):
+            actions.append(self.entities)
+        elif self.entities:
             actions.extend(self.entities)
         return (text, actions)
 
-- 
2.43.0


From 2e84c27c2c52f87ac1b1f70cea74b6665a566c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 16/62] fix: let OnProcessStart target any action that starts a
 process, as its siblings do

---
 launch/launch/event_handlers/on_process_start.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/launch/launch/event_handlers/on_process_start.py b/launch/launch/event_handlers/on_process_start.py
index 0c1f230..7430e5a 100644
--- a/launch/launch/event_handlers/on_process_start.py
+++ b/launch/launch/event_handlers/on_process_start.py
@@ -28,7 +28,7 @@ from ..some_entities_type import SomeEntitiesType
 
 if TYPE_CHECKING:
     from ..action import Action  # noqa: F401
-    from ..actions import ExecuteProcess  # noqa: F401
+    from ..actions import ExecuteLocal  # noqa: F401
 
 
 class OnProcessStart(OnActionEventBase):
@@ -51,7 +51,7 @@ class OnProcessStart(OnActionEventBase):
         **kwargs
     ) -> None:
         """Create an OnProcessStart event handler."""
-        from ..actions import ExecuteProcess  # noqa: F811
+        from ..actions import ExecuteLocal  # noqa: F811
         on_start = cast(
             Union[
                 SomeEntitiesType,
@@ -61,6 +61,6 @@ class OnProcessStart(OnActionEventBase):
             action_matcher=target_action,
             on_event=on_start,
             target_event_cls=ProcessStarted,
-            target_action_cls=ExecuteProcess,
+            target_action_cls=ExecuteLocal,
             **kwargs,
         )
-- 
2.43.0


From cc6ccb3c921ccfc4557421f9663c2f11c35e8c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 17/62] fix: evaluate the reason of a shutdown written in a
 launch file, it is a text

---
 launch/launch/actions/shutdown_action.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/launch/launch/actions/shutdown_action.py b/launch/launch/actions/shutdown_action.py
index 5450d3b..129925d 100644
--- a/launch/launch/actions/shutdown_action.py
+++ b/launch/launch/actions/shutdown_action.py
@@ -15,7 +15,7 @@
 """Module for the Shutdown action."""
 
 import logging
-from typing import Text
+from typing import List
 
 from launch.frontend import Entity
 from launch.frontend import expose_action
@@ -25,6 +25,10 @@ from .emit_event import EmitEvent
 from ..events import Shutdown as ShutdownEvent
 from ..events.process import ProcessExited
 from ..launch_context import LaunchContext
+from ..some_substitutions_type import SomeSubstitutionsType
+from ..substitution import Substitution
+from ..utilities import normalize_to_list_of_substitutions
+from ..utilities import perform_substitutions
 
 _logger = logging.getLogger(name='launch')
 
@@ -33,7 +37,12 @@ _logger = logging.getLogger(name='launch')
 class Shutdown(EmitEvent):
     """Action that shuts down a launched system by emitting Shutdown when executed."""
 
-    def __init__(self, *, reason: Text = 'reason not given', **kwargs):
+    def __init__(self, *, reason: SomeSubstitutionsType = 'reason not given', **kwargs):
+        self.__reason: List[Substitution] = []
+        if not isinstance(reason, str):
+            # The reason of the event is a text, it is evaluated when the action is executed
+            self.__reason = normalize_to_list_of_substitutions(reason)
+            reason = ''.join([sub.describe() for sub in self.__reason])
         super().__init__(event=ShutdownEvent(reason=reason), **kwargs)
 
     @classmethod
@@ -56,4 +65,8 @@ class Shutdown(EmitEvent):
             _logger.info('process[{}] was required: shutting down launched system'.format(
                 event.process_name))
 
-        super().execute(context)
+        if self.__reason:
+            context.emit_event_sync(
+                ShutdownEvent(reason=perform_substitutions(context, self.__reason)))
+        else:
+            super().execute(context)
-- 
2.43.0


From 5e034b724a859c4a4c304ffbc7ea523be6e15d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 18/62] fix: let the any and all substitutions be used in
 launch files

---
 launch/launch/substitutions/boolean_substitution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/launch/launch/substitutions/boolean_substitution.py b/launch/launch/substitutions/boolean_substitution.py
index 14b57ae..a2cd59e 100644
--- a/launch/launch/substitutions/boolean_substitution.py
+++ b/launch/launch/substitutions/boolean_substitution.py
@@ -14,6 +14,7 @@
 
 """Module for boolean substitutions."""
 
+from functools import partial
 from typing import Iterable
 from typing import List
 from typing import Sequence
@@ -177,7 +178,7 @@ class AnySubstitution(Substitution):
     @classmethod
     def parse(cls, data: Iterable[SomeSubstitutionsType]):
         """Parse `AnySubstitution` substitution."""
-        return cls, {'args': data}
+        return partial(cls, *data), {}
 
     @property
     def args(self) -> List[List[Substitution]]:
@@ -223,7 +224,7 @@ class AllSubstitution(Substitution):
     @classmethod
     def parse(cls, data: Iterable[SomeSubstitutionsType]):
         """Parse `AllSubstitution` substitution."""
-        return cls, {'args': data}
+        return partial(cls, *data), {}
 
     @property
     def args(self) -> List[List[Substitution]]:
-- 
2.43.0


From 971ea4552b668da32ef3e3e8c9cc49528ca9d9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 19/62] fix: a command that cannot be executed is a failure of
 the substitution

---
 launch/launch/substitutions/command.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/launch/launch/substitutions/command.py b/launch/launch/substitutions/command.py
index 0aed7a9..424614f 100644
--- a/launch/launch/substitutions/command.py
+++ b/launch/launch/substitutions/command.py
@@ -98,6 +98,8 @@ class Command(Substitution):
             command = shlex.split(command_str)
         else:
             command = command_str
+        if not command:
+            raise SubstitutionFailure('the command is empty')
         on_stderr = perform_substitutions(context, self.on_stderr)
         if on_stderr not in ('fail', 'ignore', 'warn', 'capture'):
             raise SubstitutionFailure(
@@ -114,6 +116,8 @@ class Command(Substitution):
                 universal_newlines=True)
         except FileNotFoundError as ex:
             raise SubstitutionFailure(f'file not found: {ex}')
+        except OSError as ex:
+            raise SubstitutionFailure(f'the command cannot be executed: {ex}')
         if result.returncode != 0:
             on_error_message = f'executed command failed. Command: {command_str}'
             if result.stderr:
-- 
2.43.0


From b7aebb437da4c108d60b4c3e1c028f34a5309bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 20/62] fix: evaluate the default of an environment variable
 only if it does not exist

---
 launch/launch/substitutions/environment_variable.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/launch/launch/substitutions/environment_variable.py b/launch/launch/substitutions/environment_variable.py
index 0134714..82732dd 100644
--- a/launch/launch/substitutions/environment_variable.py
+++ b/launch/launch/substitutions/environment_variable.py
@@ -88,14 +88,11 @@ class EnvironmentVariable(Substitution):
     def perform(self, context: LaunchContext) -> Text:
         """Perform the substitution by looking up the environment variable."""
         from ..utilities import perform_substitutions  # import here to avoid loop
-        default_value: Optional[str] = None
-        if self.default_value is not None:
-            default_value = perform_substitutions(context, self.default_value)
         name = perform_substitutions(context, self.name)
-        value = context.environment.get(
-            name,
-            default_value
-        )
+        value = context.environment.get(name)
+        if value is None and self.default_value is not None:
+            # Only evaluated when it is needed
+            return perform_substitutions(context, self.default_value)
         if value is None:
             raise SubstitutionFailure(
                 "environment variable '{}' does not exist".format(name)
-- 
2.43.0


From cd40d695d7d9884cf79a3a1c270bbbef5ac640b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 21/62] fix: a list of booleans and integers is not uniform,
 whatever their order

---
 launch/launch/utilities/type_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/launch/launch/utilities/type_utils.py b/launch/launch/utilities/type_utils.py
index cae6373..e8dd379 100644
--- a/launch/launch/utilities/type_utils.py
+++ b/launch/launch/utilities/type_utils.py
@@ -178,8 +178,9 @@ def is_instance_of_valid_type(value: Any, *, can_be_str: bool = False) -> bool:
         member_type = next((type(x) for x in value if type(x) is not str), str)
         if member_type not in ScalarTypesTuple:
             return False
-        valid_types = (member_type, str) if can_be_str else member_type
-        return all(isinstance(x, valid_types) for x in value)
+        # The types are compared, because `bool` is a subclass of `int`
+        valid_types = (member_type, str) if can_be_str else (member_type,)
+        return all(type(x) in valid_types for x in value)
     return isinstance(value, ScalarTypesTuple)
 
 
-- 
2.43.0


From 98f51eea0fa49ea3438b04841989d1343a75b979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 22/62] fix: an empty list is a list of any type

---
 launch/launch/utilities/type_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/launch/launch/utilities/type_utils.py b/launch/launch/utilities/type_utils.py
index e8dd379..9fd86dc 100644
--- a/launch/launch/utilities/type_utils.py
+++ b/launch/launch/utilities/type_utils.py
@@ -458,6 +458,9 @@ def normalize_typed_substitution(
             f"Got value='{value}', data_type='{data_type}'."
         )
 
+    # An empty list is a list of any type
+    if not types_in_list:
+        return []
     # Normalize each specific uniform list input
     err_msg = (
         "Got a list of '{}'"
-- 
2.43.0


From 26ad90fa6062d3b4224dccea78cbd8d82c25a34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:23 +0000
Subject: [PATCH 23/62] fix: report YAML entities of an unexpected shape as
 such, accept an empty list of entities

---
 launch_yaml/launch_yaml/entity.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/launch_yaml/launch_yaml/entity.py b/launch_yaml/launch_yaml/entity.py
index 93e2626..db9dbe1 100644
--- a/launch_yaml/launch_yaml/entity.py
+++ b/launch_yaml/launch_yaml/entity.py
@@ -59,7 +59,7 @@ class Entity(BaseEntity):
         self.__children_called = True
         if not isinstance(self.__element, (dict, list)):
             raise TypeError(
-                f'Expected a dict or list, got {type(self.element)}:'
+                f'Expected a dict or list, got {type(self.__element)}:'
                 f'\n---\n{self.__element}\n---'
             )
         if isinstance(self.__element, dict):
@@ -89,6 +89,11 @@ class Entity(BaseEntity):
                     f'Unexpected nested entity(ies) found in `{self.__type_name}`: '
                     f'{self.__element}')
             return
+        if self.__element is None:
+            return
+        if not isinstance(self.__element, dict):
+            raise ValueError(
+                f'Unexpected value found in `{self.__type_name}`: {self.__element}')
         unparsed_keys = set(self.__element.keys()) - self.__read_keys
         if unparsed_keys:
             raise ValueError(
@@ -113,7 +118,7 @@ class Entity(BaseEntity):
         `launch_yaml` does not apply type coercion,
         it only checks if the read value is of the correct type.
         """
-        if name not in self.__element:
+        if not isinstance(self.__element, dict) or name not in self.__element:
             if not optional:
                 raise AttributeError(
                     "Can not find attribute '{}' in Entity '{}'".format(
@@ -123,7 +128,7 @@ class Entity(BaseEntity):
         self.__read_keys.add(name)
         data = self.__element[name]
         if check_is_list_entity(data_type):
-            if isinstance(data, list) and isinstance(data[0], dict):
+            if isinstance(data, list) and all(isinstance(child, dict) for child in data):
                 return [Entity(child, name) for child in data]
             raise TypeError(
                 "Attribute '{}' of Entity '{}' expected to be a list of dictionaries.".format(
-- 
2.43.0


From 5d0fe9f4c87bc382f22ab27ec3fcf8c8af5f49a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 24/62] fix: load launch files given as bytes or as a file
 opened by its descriptor

---
 launch/launch/frontend/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/launch/launch/frontend/parser.py b/launch/launch/frontend/parser.py
index 48b20ed..9ef33e2 100644
--- a/launch/launch/frontend/parser.py
+++ b/launch/launch/frontend/parser.py
@@ -240,6 +240,8 @@ class Parser:
 
         try:
             filename = getattr(fileobj, 'name', '')
+            # The name is bytes or a file descriptor if that is what was opened
+            filename = os.fsdecode(filename) if not isinstance(filename, int) else ''
             implementations = cls.get_parsers_from_filename(filename)
             assert cls.frontend_parsers is not None
             implementations += [
-- 
2.43.0


From c04725053e0ac689740bf6317ccb5d53b4bedf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 25/62] fix: refuse unknown attributes and tags in the choices
 of an argument

---
 launch/launch/actions/declare_launch_argument.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/launch/launch/actions/declare_launch_argument.py b/launch/launch/actions/declare_launch_argument.py
index d292abe..ab85e42 100644
--- a/launch/launch/actions/declare_launch_argument.py
+++ b/launch/launch/actions/declare_launch_argument.py
@@ -178,6 +178,8 @@ class DeclareLaunchArgument(Action):
             kwargs['choices'] = [
                 parser.escape_characters(choice.get_attr('value')) for choice in choices
             ]
+            for choice in choices:
+                choice.assert_entity_completely_parsed()
         return cls, kwargs
 
     @property
-- 
2.43.0


From c013c2416ff1a4ef5122d1a1c3b6f4d91b115d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 26/62] fix: refuse text for the boolean attributes of a group

---
 launch/launch/actions/group_action.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/launch/launch/actions/group_action.py b/launch/launch/actions/group_action.py
index 81b7b53..392b813 100644
--- a/launch/launch/actions/group_action.py
+++ b/launch/launch/actions/group_action.py
@@ -89,8 +89,10 @@ class GroupAction(Action):
     def parse(cls, entity: Entity, parser: Parser):
         """Return `GroupAction` action and kwargs for constructing it."""
         _, kwargs = super().parse(entity, parser)
-        scoped = entity.get_attr('scoped', data_type=bool, optional=True)
-        forwarding = entity.get_attr('forwarding', data_type=bool, optional=True)
+        scoped = entity.get_attr(
+            'scoped', data_type=bool, optional=True, can_be_str=False)
+        forwarding = entity.get_attr(
+            'forwarding', data_type=bool, optional=True, can_be_str=False)
         keeps = entity.get_attr('keep', data_type=List[Entity], optional=True)
         if scoped is not None:
             kwargs['scoped'] = scoped
-- 
2.43.0


From e60dcdebeaa04e66d9efe47727e91295a57f2b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:15 +0000
Subject: [PATCH 27/62] fix: use the given parser for launch files of the
 frontends

---
 .../launch_description_sources/any_launch_file_utilities.py  | 5 +++--
 .../frontend_launch_description_source.py                    | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/launch/launch/launch_description_sources/any_launch_file_utilities.py b/launch/launch/launch_description_sources/any_launch_file_utilities.py
index 097d586..abdefd0 100644
--- a/launch/launch/launch_description_sources/any_launch_file_utilities.py
+++ b/launch/launch/launch_description_sources/any_launch_file_utilities.py
@@ -14,6 +14,7 @@
 
 """Python package utility functions related to loading Frontend Launch Files."""
 
+from functools import partial
 import os
 from typing import Callable
 from typing import List
@@ -40,8 +41,8 @@ def get_launch_description_from_any_launch_file(
     :raises `SyntaxError`: Invalid file. The file may have a syntax error in it.
     :raises `ValueError`: Invalid file. The file may not be a text file.
     """
-    loaders: List[Callable[[str], LaunchDescription]] =\
-        [get_launch_description_from_frontend_launch_file]
+    loaders: List[Callable[[str], LaunchDescription]] = [
+        partial(get_launch_description_from_frontend_launch_file, parser=parser)]
 
     launch_file_name = os.path.basename(launch_file_path)
     extension = os.path.splitext(launch_file_name)[1]
diff --git a/launch/launch/launch_description_sources/frontend_launch_description_source.py b/launch/launch/launch_description_sources/frontend_launch_description_source.py
index dda792b..7bd6e5e 100644
--- a/launch/launch/launch_description_sources/frontend_launch_description_source.py
+++ b/launch/launch/launch_description_sources/frontend_launch_description_source.py
@@ -52,7 +52,7 @@ class FrontendLaunchDescriptionSource(LaunchDescriptionSource):
             launch_file_path,
             method
         )
-        self._parser = Parser
+        self._parser = parser
 
     def _get_launch_description(self, location):
         """Get the LaunchDescription from location."""
-- 
2.43.0


From 473fac3b6ed4004059df4b61ef2ce8c6bd21843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:17 +0000
Subject: [PATCH 28/62] fix: describe launch descriptions without entities

---
 launch/launch/launch_introspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch/launch/launch_introspector.py b/launch/launch/launch_introspector.py
index 1abcbce..a60aa37 100644
--- a/launch/launch/launch_introspector.py
+++ b/launch/launch/launch_introspector.py
@@ -53,7 +53,7 @@ def tree_like_indent(lines: List[Text]) -> List[Text]:
         previous_first_non_whitespace = first_non_whitespace
         line = line[0:first_non_whitespace - 4] + '└── ' + line[first_non_whitespace:]
         result.append(line)
-    if result[-1].startswith('│'):
+    if result and result[-1].startswith('│'):
         result[-1] = ' ' + result[-1][1:]
     # TODO(wjwwood): figure out how to handle remaining cases like how to fix this sample:
     # ├── OnProcessExit(...)
-- 
2.43.0


From aa1a43c297af1eba6b3d231daef963de4bc1bd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 29/62] fix: accept all arguments of signal.set_wakeup_fd while
 it is intercepted

---
 launch/launch/utilities/signal_management.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch/launch/utilities/signal_management.py b/launch/launch/utilities/signal_management.py
index a078c69..79259da 100644
--- a/launch/launch/utilities/signal_management.py
+++ b/launch/launch/utilities/signal_management.py
@@ -170,7 +170,7 @@ class AsyncSafeSignalManager:
         if self.__parent is None:
             # Do not trust signal.set_wakeup_fd calls within context.
             # Overwrite handle at the start of the managers' chain.
-            def modified_set_wakeup_fd(signum):
+            def modified_set_wakeup_fd(signum, *, warn_on_full_buffer=True):
                 if threading.current_thread() is not threading.main_thread():
                     raise ValueError(
                         'set_wakeup_fd only works in main'
-- 
2.43.0


From 4729f87b15fdee27522b7401029f8e80a7d0a818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:04 +0000
Subject: [PATCH 30/62] fix: wake every thread waiting for process events or
 output

---
 launch_testing/launch_testing/io_handler.py        | 4 ++--
 launch_testing/launch_testing/proc_info_handler.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/launch_testing/launch_testing/io_handler.py b/launch_testing/launch_testing/io_handler.py
index ee233a6..b818f44 100644
--- a/launch_testing/launch_testing/io_handler.py
+++ b/launch_testing/launch_testing/io_handler.py
@@ -102,12 +102,12 @@ class ActiveIoHandler:
     def track(self, process_name):
         with self._sync_lock:
             self._io_handler.track(process_name)
-            self._sync_lock.notify()
+            self._sync_lock.notify_all()
 
     def append(self, process_io):
         with self._sync_lock:
             self._io_handler.append(process_io)
-            self._sync_lock.notify()
+            self._sync_lock.notify_all()
 
     def __iter__(self):
         with self._sync_lock:
diff --git a/launch_testing/launch_testing/proc_info_handler.py b/launch_testing/launch_testing/proc_info_handler.py
index 08c28a7..7d15a41 100644
--- a/launch_testing/launch_testing/proc_info_handler.py
+++ b/launch_testing/launch_testing/proc_info_handler.py
@@ -83,7 +83,7 @@ class ActiveProcInfoHandler:
     def append(self, process_info):
         with self._sync_lock:
             self._proc_info_handler.append(process_info)
-            self._sync_lock.notify()
+            self._sync_lock.notify_all()
 
     def __iter__(self):
         with self._sync_lock:
-- 
2.43.0


From d733d91b2e0487e7540595ab49aa3bdbb935236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:15 +0000
Subject: [PATCH 31/62] fix: iterate over a snapshot of the process events

---
 launch_testing/launch_testing/proc_info_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/proc_info_handler.py b/launch_testing/launch_testing/proc_info_handler.py
index 7d15a41..8844720 100644
--- a/launch_testing/launch_testing/proc_info_handler.py
+++ b/launch_testing/launch_testing/proc_info_handler.py
@@ -87,7 +87,7 @@ class ActiveProcInfoHandler:
 
     def __iter__(self):
         with self._sync_lock:
-            return self._proc_info_handler.__iter__()
+            return list(self._proc_info_handler).__iter__()
 
     def processes(self):
         """
-- 
2.43.0


From 533ede7552dfea2885c7b42deff627a6c3c1125c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:27 +0000
Subject: [PATCH 32/62] fix: match lines against a single pattern

---
 launch_testing/launch_testing/tools/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/tools/text.py b/launch_testing/launch_testing/tools/text.py
index 61fdd7a..2ecfd0d 100644
--- a/launch_testing/launch_testing/tools/text.py
+++ b/launch_testing/launch_testing/tools/text.py
@@ -49,7 +49,7 @@ def build_line_match(expected_lines, *, strict=False):
         return _match
 
     if hasattr(expected_lines, 'match'):
-        def _match(actual_lines, start):
+        def _match(actual_lines, start=0):
             if strict:
                 if all(expected_lines.match(line) for line in actual_lines[start:]):
                     return start, start + len(actual_lines[start:])
-- 
2.43.0


From 87d00ee2b783219994f095ff7a588a651fac3ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:38 +0000
Subject: [PATCH 33/62] fix: let the condition waited for return any value

---
 launch_testing/launch_testing/tools/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/tools/process.py b/launch_testing/launch_testing/tools/process.py
index 5c71c09..c883908 100644
--- a/launch_testing/launch_testing/tools/process.py
+++ b/launch_testing/launch_testing/tools/process.py
@@ -91,7 +91,7 @@ class ProcessProxy:
                 self._output = output
 
             def __bool__(self):
-                return self._result
+                return bool(self._result)
 
             def __repr__(self):
                 return f'<BoolWithText({self._result}): {repr(self._output)}>'
-- 
2.43.0


From 7beff7e042dec75bf7fbd78d15936d4113deceda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 34/62] fix: decode the output of a process as a whole, not
 each part of it

---
 .../launch_testing/asserts/assert_output.py          | 12 ++++++------
 launch_testing/launch_testing/tools/process.py       |  8 +++++---
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/launch_testing/launch_testing/asserts/assert_output.py b/launch_testing/launch_testing/asserts/assert_output.py
index 244126e..d6793db 100644
--- a/launch_testing/launch_testing/asserts/assert_output.py
+++ b/launch_testing/launch_testing/asserts/assert_output.py
@@ -82,13 +82,13 @@ def assertInStream(proc_output,
 
     for proc in resolved_procs:  # Nominally just one matching proc
         if stream == 'stdout':
-            full_output = ''.join(
-                output.text.decode() for output in proc_output[proc] if output.from_stdout
-            )
+            full_output = b''.join(
+                output.text for output in proc_output[proc] if output.from_stdout
+            ).decode(errors='replace')
         elif stream == 'stderr':
-            full_output = ''.join(
-                output.text.decode() for output in proc_output[proc] if output.from_stderr
-            )
+            full_output = b''.join(
+                output.text for output in proc_output[proc] if output.from_stderr
+            ).decode(errors='replace')
         else:
             raise ValueError("Invalid value for stream; must be 'stdout' or 'stderr'")
 
diff --git a/launch_testing/launch_testing/tools/process.py b/launch_testing/launch_testing/tools/process.py
index c883908..bd5cb40 100644
--- a/launch_testing/launch_testing/tools/process.py
+++ b/launch_testing/launch_testing/tools/process.py
@@ -109,7 +109,8 @@ class ProcessProxy:
     @property
     def stderr(self):
         output_events = self._proc_output[self._process_action]
-        output_text = ''.join(ev.text.decode() for ev in output_events if ev.from_stderr)
+        output_bytes = b''.join(ev.text for ev in output_events if ev.from_stderr)
+        output_text = output_bytes.decode(errors='replace')
         if self._output_filter is not None:
             output_text = self._output_filter(output_text)
         return output_text
@@ -117,7 +118,8 @@ class ProcessProxy:
     @property
     def stdout(self):
         output_events = self._proc_output[self._process_action]
-        output_text = ''.join(ev.text.decode() for ev in output_events if ev.from_stdout)
+        output_bytes = b''.join(ev.text for ev in output_events if ev.from_stdout)
+        output_text = output_bytes.decode(errors='replace')
         if self._output_filter is not None:
             output_text = self._output_filter(output_text)
         return output_text
@@ -125,7 +127,7 @@ class ProcessProxy:
     @property
     def output(self):
         output_events = self._proc_output[self._process_action]
-        output_text = ''.join(ev.text.decode() for ev in output_events)
+        output_text = b''.join(ev.text for ev in output_events).decode(errors='replace')
         if self._output_filter is not None:
             output_text = self._output_filter(output_text)
         return output_text
-- 
2.43.0


From 47ebc1475cfc8bd4b96cd3c73612946a6701f074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:59 +0000
Subject: [PATCH 35/62] fix: check the sequence of texts over the whole stdout,
 and only that

---
 .../launch_testing/asserts/assert_sequential_output.py    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/launch_testing/launch_testing/asserts/assert_sequential_output.py b/launch_testing/launch_testing/asserts/assert_sequential_output.py
index 35c1a82..f317f3d 100644
--- a/launch_testing/launch_testing/asserts/assert_sequential_output.py
+++ b/launch_testing/launch_testing/asserts/assert_sequential_output.py
@@ -125,10 +125,10 @@ def assertSequentialStdout(proc_output,
         strict_proc_matching=True,
     )[0]
 
-    # Get all the output from the process.  This will be a list of strings.  Each string may
-    # contain multiple lines of output
-    to_check = [p.text.decode() for p in proc_output[process]]
-    checker = SequentialTextChecker(to_check)
+    # Get all the stdout of the process.  How it was split on arrival carries no meaning, and
+    # neither words nor characters may be cut by it, so it is checked as a single string
+    stdout = b''.join(p.text for p in proc_output[process] if p.from_stdout)
+    checker = SequentialTextChecker([stdout.decode(errors='replace')])
 
     try:
         yield checker
-- 
2.43.0


From 7c2e181073593aeac6181dea1fe16e70139cf561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 36/62] fix: notice the ready text when it arrives in several
 parts

---
 .../event_handlers/stdout_ready_listener.py              | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/event_handlers/stdout_ready_listener.py b/launch_testing/launch_testing/event_handlers/stdout_ready_listener.py
index af02ba5..7117194 100644
--- a/launch_testing/launch_testing/event_handlers/stdout_ready_listener.py
+++ b/launch_testing/launch_testing/event_handlers/stdout_ready_listener.py
@@ -40,6 +40,7 @@ class StdoutReadyListener(OnProcessIO):
     ):
         self.__ready_txt = ready_txt
         self.__actions = actions
+        self.__unmatched = {}
 
         super().__init__(
             target_action=target_action,
@@ -47,7 +48,13 @@ class StdoutReadyListener(OnProcessIO):
         )
 
     def __on_stdout(self, process_io):
-        if self.__ready_txt in process_io.text.decode():
+        # The text may arrive in several parts, so keep the end of what did not match
+        ready = self.__ready_txt.encode()
+        output = self.__unmatched.get(process_io.action, b'') + process_io.text
+        found = output.rfind(ready)
+        rest = output if found < 0 else output[found + len(ready):]
+        self.__unmatched[process_io.action] = rest[max(0, len(rest) - len(ready) + 1):]
+        if found >= 0:
             return self.__actions
 
     def describe(self) -> Tuple[Text, List[SomeEntitiesType]]:
-- 
2.43.0


From 470a99f00afa6fbfae48c45d98696df8b4675fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:31 +0000
Subject: [PATCH 37/62] fix: keep the actions of a timer given as a one-time
 iterable

---
 launch/launch/actions/timer_action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch/launch/actions/timer_action.py b/launch/launch/actions/timer_action.py
index 1e24042..ac7f262 100644
--- a/launch/launch/actions/timer_action.py
+++ b/launch/launch/actions/timer_action.py
@@ -83,7 +83,7 @@ class TimerAction(Action):
                 stacklevel=2)
         self.__period = type_utils.normalize_typed_substitution(period, float)
         self.__performed_period: Optional[float] = None
-        self.__actions = actions
+        self.__actions = list(actions)
         self.__context_locals: Dict[Text, Any] = {}
         self._completed_future: Optional[asyncio.Future] = None
         self.__canceled = False
-- 
2.43.0


From 2121dfa69772987e4d217be068c110a4ba63f236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:40 +0000
Subject: [PATCH 38/62] fix: keep the arguments of a function or coroutine
 given as a one-time iterable

---
 launch/launch/actions/opaque_coroutine.py | 2 +-
 launch/launch/actions/opaque_function.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/launch/launch/actions/opaque_coroutine.py b/launch/launch/actions/opaque_coroutine.py
index 3628075..45ba399 100644
--- a/launch/launch/actions/opaque_coroutine.py
+++ b/launch/launch/actions/opaque_coroutine.py
@@ -86,7 +86,7 @@ class OpaqueCoroutine(Action):
         self.__coroutine = coroutine
         self.__args = []  # type: Iterable
         if args is not None:
-            self.__args = args
+            self.__args = list(args)
         self.__kwargs = {}  # type: Dict[Text, Any]
         if kwargs is not None:
             self.__kwargs = kwargs
diff --git a/launch/launch/actions/opaque_function.py b/launch/launch/actions/opaque_function.py
index 2c70a06..72e9461 100644
--- a/launch/launch/actions/opaque_function.py
+++ b/launch/launch/actions/opaque_function.py
@@ -65,7 +65,7 @@ class OpaqueFunction(Action):
         self.__function = function
         self.__args = []  # type: Iterable
         if args is not None:
-            self.__args = args
+            self.__args = list(args)
         self.__kwargs = {}  # type: Dict[Text, Any]
         if kwargs is not None:
             self.__kwargs = kwargs
-- 
2.43.0


From 2b74e0b8d481d0756141759c58c603ba8f6bc3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:42 +0000
Subject: [PATCH 39/62] fix: let functions and generators within an expression
 see the modules

---
 launch/launch/substitutions/python_expression.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/launch/launch/substitutions/python_expression.py b/launch/launch/substitutions/python_expression.py
index 66f02c0..9cac5f5 100644
--- a/launch/launch/substitutions/python_expression.py
+++ b/launch/launch/substitutions/python_expression.py
@@ -106,13 +106,15 @@ class PythonExpression(Substitution):
         from ..utilities import perform_substitutions
         module_names = [context.perform_substitution(sub) for sub in self.python_modules]
         module_objects = [importlib.import_module(name) for name in module_names]
-        expression_locals = {}
+        # These are the globals of the expression, since functions and generators
+        # within it would not see its locals.
+        expression_globals = {}
         for module in module_objects:
             # For backwards compatibility, we allow math definitions to be implicitly
             # referenced in expressions, without prepending the math module name
             # TODO: This may be removed in a future release.
             if module.__name__ == 'math':
-                expression_locals.update(vars(module))
+                expression_globals.update(vars(module))
 
-            expression_locals[module.__name__] = module
-        return str(eval(perform_substitutions(context, self.expression), {}, expression_locals))
+            expression_globals[module.__name__] = module
+        return str(eval(perform_substitutions(context, self.expression), expression_globals))
-- 
2.43.0


From 41b53e6c69ff84ac23c0ad296386b676cfb5f8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:20 +0000
Subject: [PATCH 40/62] fix: keep the failures of other tests, and of no failed
 attempt, when a test is retried

---
 launch_testing/launch_testing/markers.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/launch_testing/launch_testing/markers.py b/launch_testing/launch_testing/markers.py
index d070967..0be6cf7 100644
--- a/launch_testing/launch_testing/markers.py
+++ b/launch_testing/launch_testing/markers.py
@@ -26,6 +26,15 @@ def keep_alive(test_description):
     return test_description
 
 
+def _get_records_of(test_case):
+    """Get the lists which collect what goes wrong while a test case runs."""
+    outcome = getattr(test_case, '_outcome', None)
+    if hasattr(outcome, 'errors'):
+        return [outcome.errors]
+    result = getattr(outcome, 'result', None)
+    return [getattr(result, name) for name in ('errors', 'failures') if hasattr(result, name)]
+
+
 def retry_on_failure(*, times, delay=None):
     """
     Mark a test case to be retried up to `times` on AssertionError.
@@ -43,18 +52,18 @@ def retry_on_failure(*, times, delay=None):
         def _wrapper(self, *args, **kwargs):
             n = times
             while n > 1:
+                # What is there already belongs to other tests
+                records = [(record, len(record)) for record in _get_records_of(self)]
                 try:
                     ret = func(self, *args, **kwargs)
                     if isinstance(self, unittest.TestCase):
                         assert self._outcome.success
                     return ret
                 except AssertionError:
-                    if hasattr(self._outcome, 'errors'):
-                        self._outcome.errors.clear()
-                    else:
-                        if self._outcome.result is not None:
-                            self._outcome.result.errors.clear()
-                    self._outcome.success = True
+                    for record, count in records:
+                        del record[count:]
+                    if isinstance(self, unittest.TestCase):
+                        self._outcome.success = True
                     n -= 1
                 if delay is not None:
                     time.sleep(delay)
-- 
2.43.0


From 3c2a495562fe1a1d7ee114ef4805b6aa153a55e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:20 +0000
Subject: [PATCH 41/62] fix: keep the markers and timeout applied on top of
 parametrize

---
 launch_testing/launch_testing/parametrize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/launch_testing/launch_testing/parametrize.py b/launch_testing/launch_testing/parametrize.py
index d7e9d26..01d8cfd 100644
--- a/launch_testing/launch_testing/parametrize.py
+++ b/launch_testing/launch_testing/parametrize.py
@@ -43,6 +43,10 @@ def parametrize(argnames, argvalues):
 
                 partial = functools.partial(func, **partial_args)
                 functools.update_wrapper(partial, func)
+                # Decorators may also have been applied on top of this one
+                for name in ('__markers__', '__ready_to_test_action_timeout__'):
+                    if hasattr(_wrapped, name):
+                        setattr(partial, name, getattr(_wrapped, name))
                 yield partial, partial_args
 
         _wrapped.__parametrized__ = True
-- 
2.43.0


From 20df2acff1e86b8d619eb6b5c01281fdba25245e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:21 +0000
Subject: [PATCH 42/62] fix: report subtests, unexpected successes and control
 characters in JUnit XML

---
 launch_testing/launch_testing/junitxml.py | 44 ++++++++++++++++-------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/launch_testing/launch_testing/junitxml.py b/launch_testing/launch_testing/junitxml.py
index 3a8117a..34e91bf 100644
--- a/launch_testing/launch_testing/junitxml.py
+++ b/launch_testing/launch_testing/junitxml.py
@@ -13,9 +13,22 @@
 # limitations under the License.
 
 
+import re
 import xml.etree.ElementTree as ET
 
 
+def _to_xml_text(text):
+    """Escape the characters that an XML document cannot contain."""
+    return re.sub(
+        '[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]',
+        lambda match: match.group().encode('unicode_escape').decode('ascii'), text)
+
+
+def _is_about(reported, test_case):
+    """Check whether what is reported is about the test case, or about a subtest of it."""
+    return reported == test_case or getattr(reported, 'test_case', None) == test_case
+
+
 def unittestResultsToXml(*, name='launch_test', test_results={}):
     """
     Serialize multiple unittest.TestResult objects into an XML document.
@@ -26,7 +39,7 @@ def unittestResultsToXml(*, name='launch_test', test_results={}):
     # launch_test results contain two test suites - one from tests that ran while processes
     # were active, and one from tests that ran after processes were shut down
     test_suites = ET.Element('testsuites')
-    test_suites.set('name', name)
+    test_suites.set('name', _to_xml_text(name))
 
     # To get tests, failures, and errors, we just want to iterate the results once
     tests = 0
@@ -36,7 +49,7 @@ def unittestResultsToXml(*, name='launch_test', test_results={}):
 
     for result in test_results.values():
         tests += result.testsRun
-        failures += len(result.failures)
+        failures += len(result.failures) + len(result.unexpectedSuccesses)
         errors += len(result.errors)
         time += sum(result.testTimes.values())
 
@@ -60,9 +73,10 @@ def unittestResultToXml(name, test_result):
     </testsuite>
     """
     test_suite = ET.Element('testsuite')
-    test_suite.set('name', name)
+    test_suite.set('name', _to_xml_text(name))
     test_suite.set('tests', str(test_result.testsRun))
-    test_suite.set('failures', str(len(test_result.failures)))
+    test_suite.set(
+        'failures', str(len(test_result.failures) + len(test_result.unexpectedSuccesses)))
     test_suite.set('errors', str(len(test_result.errors)))
     test_suite.set('skipped', str(len(test_result.skipped)))
     test_suite.set('time', str(round(sum(test_result.testTimes.values()), 3)))
@@ -85,28 +99,34 @@ def unittestCaseToXml(test_result, test_case):
     case_xml = ET.Element('testcase')
     full_methodname, _, qualifiers = test_case.id().partition(' ')
     full_classname, _, methodname = full_methodname.rpartition('.')
-    case_xml.set('classname', full_classname)
-    case_xml.set('name', (methodname + ' ' + qualifiers).strip())
+    case_xml.set('classname', _to_xml_text(full_classname))
+    case_xml.set('name', _to_xml_text((methodname + ' ' + qualifiers).strip()))
     case_xml.set('time', str(round(test_result.testTimes[test_case], 3)))
 
     for failure in test_result.failures:
         # We're enumerating a list of (test_case, failure_string) tuples here
-        if failure[0] == test_case:
+        if _is_about(failure[0], test_case):
+            failure_xml = ET.Element('failure')
+            failure_xml.set('message', _to_xml_text(failure[1]))
+            case_xml.append(failure_xml)
+
+    for unexpected_success in test_result.unexpectedSuccesses:
+        if _is_about(unexpected_success, test_case):
             failure_xml = ET.Element('failure')
-            failure_xml.set('message', failure[1])
+            failure_xml.set('message', 'Unexpected success')
             case_xml.append(failure_xml)
 
     for error in test_result.errors:
         # Same as above.  (test_case, error_string) tuples
-        if error[0] == test_case:
+        if _is_about(error[0], test_case):
             error_xml = ET.Element('error')
-            error_xml.set('message', error[1])
+            error_xml.set('message', _to_xml_text(error[1]))
             case_xml.append(error_xml)
 
     for skip in test_result.skipped:
-        if skip[0] == test_case:
+        if _is_about(skip[0], test_case):
             skip_xml = ET.Element('skipped')
-            skip_xml.set('message', skip[1])
+            skip_xml.set('message', _to_xml_text(skip[1]))
             case_xml.append(skip_xml)
 
     return case_xml
-- 
2.43.0


From 52de45945e381c11cc3e2bf5ba312b43d3467280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:52 +0000
Subject: [PATCH 43/62] fix: apply every pattern of a legacy output filter to
 all lines, keep the caller's list

---
 launch_testing/launch_testing/legacy/output.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/launch_testing/launch_testing/legacy/output.py b/launch_testing/launch_testing/legacy/output.py
index 78d8cf0..dacbf1b 100644
--- a/launch_testing/launch_testing/legacy/output.py
+++ b/launch_testing/launch_testing/legacy/output.py
@@ -62,8 +62,8 @@ def create_output_lines_filter(
     :param filtered_rmw_implementation: RMW implementation for which the output will be
     ignored in addition to the `filtered_prefixes`/`filtered_patterns`.
     """
-    filtered_prefixes = filtered_prefixes or get_default_filtered_prefixes()
-    filtered_patterns = filtered_patterns or get_default_filtered_patterns()
+    filtered_prefixes = list(filtered_prefixes or get_default_filtered_prefixes())
+    filtered_patterns = list(filtered_patterns or get_default_filtered_patterns())
     if filtered_rmw_implementation:
         filtered_prefixes.extend(get_rmw_output_filter(
             filtered_rmw_implementation, 'prefixes'
@@ -71,7 +71,7 @@ def create_output_lines_filter(
         filtered_patterns.extend(get_rmw_output_filter(
             filtered_rmw_implementation, 'patterns'
         ))
-    filtered_patterns = map(re.compile, filtered_patterns)
+    filtered_patterns = list(map(re.compile, filtered_patterns))
     encoded_line_sep = os.linesep.encode('ascii')
 
     def _filter(output):
-- 
2.43.0


From 4d3f2d7458d8eb25ff55052c0212e3b9acd829cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:52 +0000
Subject: [PATCH 44/62] fix: fail a legacy output test whose output was not
 matched until shutdown

---
 launch_testing/launch_testing/legacy/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/legacy/__init__.py b/launch_testing/launch_testing/legacy/__init__.py
index bfe094a..19020c7 100644
--- a/launch_testing/launch_testing/legacy/__init__.py
+++ b/launch_testing/launch_testing/legacy/__init__.py
@@ -213,7 +213,8 @@ class LaunchTestService():
                 process_name = action.process_details['name']
                 reason = 'not all {} output matched!'.format(process_name)
                 self._fail(test_name, reason)
-            self._succeed(test_name, side_effect)
+            else:
+                self._succeed(test_name, side_effect)
 
         launch_description.add_action(
             RegisterEventHandler(OnShutdown(on_shutdown=on_shutdown))
-- 
2.43.0


From 38ee84fb5ee12fdee11fc5481d15080749a84b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:33 +0000
Subject: [PATCH 45/62] fix: honour unittest.expectedFailure on launch tests

---
 launch_testing/launch_testing/loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/loader.py b/launch_testing/launch_testing/loader.py
index ceb13ae..18eac26 100644
--- a/launch_testing/launch_testing/loader.py
+++ b/launch_testing/launch_testing/loader.py
@@ -253,7 +253,9 @@ def _partially_bind_matching_args(unbound_function, arg_candidates):
     function_args = inspect.signature(unbound_function).parameters
     # We only want to bind the part of the context matches the test args
     matching_args = {k: v for (k, v) in arg_candidates.items() if k in function_args}
-    return functools.partial(unbound_function, **matching_args)
+    partial = functools.partial(unbound_function, **matching_args)
+    # Keep what decorators left on the function, e.g. that it is expected to fail
+    return functools.update_wrapper(partial, unbound_function)
 
 
 def _give_attribute_to_tests(data, attr_name, test_suite):
-- 
2.43.0


From e02c35db374ba85abeaa6c60b5dad124b1cd8198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:09 +0000
Subject: [PATCH 46/62] fix: run launch_pytest tests with recent pytest
 versions

---
 launch_pytest/launch_pytest/plugin.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index c63fcf0..eef058a 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -163,6 +163,14 @@ def get_launch_test_fixture(item):
     return mark.kwargs.get('fixture')
 
 
+def get_fixture_marker(fixture):
+    """Return the pytest marker of the given fixture."""
+    try:
+        return fixture._pytestfixturefunction
+    except AttributeError:  # Pytest 8.4.0 replaces this attribute
+        return fixture._fixture_function_marker
+
+
 def get_launch_test_fixturename(item):
     """Return the launch test fixture name, `None` if this isn't a launch test."""
     fixture = get_launch_test_fixture(item)
@@ -236,7 +244,7 @@ def pytest_pycollect_makeitem(collector, name, obj):
                 return [item]
             fixture = get_launch_test_fixture(item)
             fixturename = fixture.__name__
-            scope = fixture._pytestfixturefunction.scope
+            scope = get_fixture_marker(fixture).scope
             is_shutdown = has_shutdown_kwarg(item)
             items = generate_test_items(
                 collector, name, obj, fixturename, is_shutdown=is_shutdown, needs_renaming=False)
@@ -264,7 +272,7 @@ def is_same_launch_test_fixture(left_item, right_item):
         return False
     if lfn is not rfn:
         return False
-    if lfn._pytestfixturefunction.scope == 'function':
+    if get_fixture_marker(lfn).scope == 'function':
         return False
     name = lfn.__name__
 
@@ -326,7 +334,7 @@ def pytest_pyfunc_call(pyfuncitem):
         return
     shutdown_test = is_shutdown_test(pyfuncitem)
     fixture = get_launch_test_fixture(pyfuncitem)
-    scope = fixture._pytestfixturefunction.scope
+    scope = get_fixture_marker(fixture).scope
     event_loop = pyfuncitem.funcargs['event_loop']
     ls = pyfuncitem.funcargs['launch_service']
     auto_shutdown = fixture._launch_pytest_fixture_options['auto_shutdown']
@@ -345,7 +353,7 @@ def pytest_pyfunc_call(pyfuncitem):
                 wrap_generator(func, event_loop, on_shutdown)
             )
             shutdown_item._fixtureinfo = shutdown_item.session._fixturemanager.getfixtureinfo(
-                shutdown_item, shutdown_item.obj, shutdown_item.cls, funcargs=True)
+                shutdown_item, shutdown_item.obj, shutdown_item.cls)
         else:
             pyfuncitem.obj = wrap_generator_fscope(func, event_loop, on_shutdown)
     elif inspect.isasyncgenfunction(func):
@@ -355,7 +363,7 @@ def pytest_pyfunc_call(pyfuncitem):
                 wrap_asyncgen(func, event_loop, on_shutdown)
             )
             shutdown_item._fixtureinfo = shutdown_item.session._fixturemanager.getfixtureinfo(
-                shutdown_item, shutdown_item.obj, shutdown_item.cls, funcargs=True)
+                shutdown_item, shutdown_item.obj, shutdown_item.cls)
         else:
             pyfuncitem.obj = wrap_asyncgen_fscope(func, event_loop, on_shutdown)
     elif not getattr(pyfuncitem.obj, '_launch_pytest_wrapped', False):
-- 
2.43.0


From d2e87a6062242a772306807f05a544b2decdb75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:21 +0000
Subject: [PATCH 47/62] fix: fail launch_pytest tests whose launch ends before
 being ready

---
 launch_pytest/launch_pytest/plugin.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index eef058a..3777a06 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -124,7 +124,14 @@ def pytest_fixture_setup(fixturedef, request):
         ready._add_callback(lambda: event.set())
         fixturedef.addfinalizer(functools.partial(
             finalize_launch_service, ls, eprefix=eprefix, auto_shutdown=options['auto_shutdown']))
-        run_until_complete(event_loop, event.wait())
+        ready_task = event_loop.create_task(event.wait())
+        run_until_complete(event_loop, event_loop.create_task(
+            asyncio.wait((ready_task, run_async_task), return_when=asyncio.FIRST_COMPLETED)))
+        if not ready_task.done():
+            ready_task.cancel()
+            raise RuntimeError(
+                f'{eprefix} launch finished before being ready to test, '
+                f"return code '{run_async_task.result()}'")
         # this is guaranteed by the current run_async() implementation, let's check it just in case
         # it changes in the future
         assert ls.event_loop is event_loop
-- 
2.43.0


From faef1988bd9cd4fa40dd2eb9747f9a12e47c352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:33 +0000
Subject: [PATCH 48/62] fix: do not reuse launch_pytest fixtures which could
 not be set up

---
 launch_pytest/launch_pytest/plugin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index 3777a06..37ad61c 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -105,6 +105,8 @@ def pytest_fixture_setup(fixturedef, request):
         # get the result of the launch fixture, we take advantage of other wrappers this way
         outcome = yield
         ret = outcome.get_result()
+        # no other test must get this fixture as if it had been set up, until launch is running
+        cached_result, fixturedef.cached_result = fixturedef.cached_result, None
         wrong_ret_type_error = (
             f'{eprefix} return value must be either a launch description '
             'or a sequence which first item is a launch description'
@@ -137,6 +139,7 @@ def pytest_fixture_setup(fixturedef, request):
         assert ls.event_loop is event_loop
         assert ls.context.asyncio_loop is event_loop
         assert ls.task is run_async_task
+        fixturedef.cached_result = cached_result
         return
     yield
 
-- 
2.43.0


From 3777994997188e58cd2892f7531f52a8dd279d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:45 +0000
Subject: [PATCH 49/62] fix: report a launch failing while its launch_pytest
 tests run

---
 launch_pytest/launch_pytest/fixture.py | 9 +++++++--
 launch_pytest/launch_pytest/plugin.py  | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/launch_pytest/launch_pytest/fixture.py b/launch_pytest/launch_pytest/fixture.py
index aec03c6..d97b61a 100644
--- a/launch_pytest/launch_pytest/fixture.py
+++ b/launch_pytest/launch_pytest/fixture.py
@@ -27,13 +27,18 @@ except ImportError:
     from _pytest.fixtures import scopemismatch as scope_gt
 
 
-def finalize_launch_service(launch_service, eprefix='', auto_shutdown=True):
+def finalize_launch_service(launch_service, eprefix='', auto_shutdown=True, task=None):
     if auto_shutdown:
         launch_service.shutdown(force_sync=True)
     loop = launch_service.event_loop
     if loop is not None and not loop.is_closed():
         rc = loop.run_until_complete(launch_service.task)
-        assert rc == 0, f"{eprefix} launch service failed when finishing, return code '{rc}'"
+    elif task is not None and task.done():
+        # launch finished while running the tests
+        rc = task.result()
+    else:
+        return
+    assert rc == 0, f"{eprefix} launch service failed when finishing, return code '{rc}'"
 
 
 def get_launch_service_fixture(*, scope='function', overridable=True):
diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index 37ad61c..89395f5 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -125,7 +125,8 @@ def pytest_fixture_setup(fixturedef, request):
         event = asyncio.Event()
         ready._add_callback(lambda: event.set())
         fixturedef.addfinalizer(functools.partial(
-            finalize_launch_service, ls, eprefix=eprefix, auto_shutdown=options['auto_shutdown']))
+            finalize_launch_service, ls, eprefix=eprefix, auto_shutdown=options['auto_shutdown'],
+            task=run_async_task))
         ready_task = event_loop.create_task(event.wait())
         run_until_complete(event_loop, event_loop.create_task(
             asyncio.wait((ready_task, run_async_task), return_when=asyncio.FIRST_COMPLETED)))
-- 
2.43.0


From b62cb162f3ad7e757ac2fd74c8fc41acb2f693fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 50/62] fix: support named launch_pytest fixtures

---
 launch_pytest/launch_pytest/plugin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index 89395f5..37c7931 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -185,7 +185,7 @@ def get_fixture_marker(fixture):
 def get_launch_test_fixturename(item):
     """Return the launch test fixture name, `None` if this isn't a launch test."""
     fixture = get_launch_test_fixture(item)
-    return None if fixture is None else fixture.__name__
+    return None if fixture is None else get_fixture_marker(fixture).name or fixture.__name__
 
 
 def is_valid_test_item(obj):
@@ -254,7 +254,7 @@ def pytest_pycollect_makeitem(collector, name, obj):
                 item.add_marker(pytest.mark.skip(msg))
                 return [item]
             fixture = get_launch_test_fixture(item)
-            fixturename = fixture.__name__
+            fixturename = get_launch_test_fixturename(item)
             scope = get_fixture_marker(fixture).scope
             is_shutdown = has_shutdown_kwarg(item)
             items = generate_test_items(
@@ -285,7 +285,7 @@ def is_same_launch_test_fixture(left_item, right_item):
         return False
     if get_fixture_marker(lfn).scope == 'function':
         return False
-    name = lfn.__name__
+    name = get_launch_test_fixturename(left_item)
 
     def get_fixture_params(item):
         if getattr(item, 'callspec', None) is None:
-- 
2.43.0


From af3752f918c29e0e63ee97a2d1c33bb322e46bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:19 +0000
Subject: [PATCH 51/62] fix: allow waiting for output without a timeout in
 launch_pytest

---
 launch_pytest/launch_pytest/tools/process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/launch_pytest/launch_pytest/tools/process.py b/launch_pytest/launch_pytest/tools/process.py
index 274044b..ab56cca 100644
--- a/launch_pytest/launch_pytest/tools/process.py
+++ b/launch_pytest/launch_pytest/tools/process.py
@@ -52,8 +52,9 @@ async def _wait_for_event_with_condition(
         start = time.time()
         now = start
         while not cond_value and (timeout is None or now < start + timeout):
+            remaining = None if timeout is None else start - now + timeout
             try:
-                await asyncio.wait_for(pyevent.wait(), start - now + timeout)
+                await asyncio.wait_for(pyevent.wait(), remaining)
             except asyncio.TimeoutError:
                 break
             pyevent.clear()
@@ -81,7 +82,7 @@ def _wait_for_event_with_condition_sync(
         start = time.time()
         now = start
         while not cond_value and (timeout is None or now < start + timeout):
-            pyevent.wait(start - now + timeout)
+            pyevent.wait(None if timeout is None else start - now + timeout)
             pyevent.clear()
             cond_value = condition()
             now = time.time()
-- 
2.43.0


From a4fe2ccab3835165ec423a795fadb9e72f8119b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:31 +0000
Subject: [PATCH 52/62] fix: do not miss output when starting to wait for it in
 launch_pytest

---
 launch_pytest/launch_pytest/tools/process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/launch_pytest/launch_pytest/tools/process.py b/launch_pytest/launch_pytest/tools/process.py
index ab56cca..fed7b56 100644
--- a/launch_pytest/launch_pytest/tools/process.py
+++ b/launch_pytest/launch_pytest/tools/process.py
@@ -47,8 +47,9 @@ async def _wait_for_event_with_condition(
 ):
     pyevent = asyncio.Event()
     event_handler = get_launch_event_handler(execute_process_action, pyevent)
-    cond_value = condition()
     with register_event_handler(launch_context, event_handler):
+        # Only check once the event handler is registered, if not an event might be missed.
+        cond_value = condition()
         start = time.time()
         now = start
         while not cond_value and (timeout is None or now < start + timeout):
@@ -77,8 +78,9 @@ def _wait_for_event_with_condition_sync(
 ):
     pyevent = threading.Event()
     event_handler = get_launch_event_handler(execute_process_action, pyevent)
-    cond_value = condition()
     with register_event_handler(launch_context, event_handler):
+        # Only check once the event handler is registered, if not an event might be missed.
+        cond_value = condition()
         start = time.time()
         now = start
         while not cond_value and (timeout is None or now < start + timeout):
-- 
2.43.0


From 2b06c78b3cf092872cb606949d2da9a6c5c8df57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:47 +0000
Subject: [PATCH 53/62] fix: skip launch_pytest shutdown tests whose test did
 not run

---
 launch_pytest/launch_pytest/plugin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index 37c7931..25b603b 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -344,6 +344,9 @@ def pytest_pyfunc_call(pyfuncitem):
         yield
         return
     shutdown_test = is_shutdown_test(pyfuncitem)
+    if shutdown_test and need_shutdown_test_item(func):
+        # the normal test sets what has to be run here
+        skip('shutdown test skipped because the test did not run before')
     fixture = get_launch_test_fixture(pyfuncitem)
     scope = get_fixture_marker(fixture).scope
     event_loop = pyfuncitem.funcargs['event_loop']
-- 
2.43.0


From c89593c9bd3c8848ccf062c5c371975a785d69d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 54/62] fix: end a legacy launch test when its last test action
 was cancelled

---
 launch_testing/launch_testing/legacy/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/legacy/__init__.py b/launch_testing/launch_testing/legacy/__init__.py
index 19020c7..211dc44 100644
--- a/launch_testing/launch_testing/legacy/__init__.py
+++ b/launch_testing/launch_testing/legacy/__init__.py
@@ -54,9 +54,11 @@ class LaunchTestService():
         self,
         test_name
     ):
-        """Mark test as dropped."""
+        """Mark test as dropped and shutdown if all other tests have finished too."""
         assert test_name in self.__tests
         self.__tests[test_name] = 'dropped'
+        if all(status != 'armed' for status in self.__tests.values()):
+            return [EmitEvent(event=Shutdown(reason='all tests finished'))]
 
     def _fail(
         self,
-- 
2.43.0


From cd0fc85531cb3054615c0c4cad450f74430503fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:50 +0000
Subject: [PATCH 55/62] fix: keep lines apart in legacy output tests, and do
 not add empty lines when filtering

---
 launch_testing/launch_testing/legacy/output.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/launch_testing/launch_testing/legacy/output.py b/launch_testing/launch_testing/legacy/output.py
index dacbf1b..da090bc 100644
--- a/launch_testing/launch_testing/legacy/output.py
+++ b/launch_testing/launch_testing/legacy/output.py
@@ -85,7 +85,7 @@ def create_output_lines_filter(
                 continue
             filtered_output.append(line)
         if output.endswith(encoded_line_sep):
-            filtered_output.append(encoded_line_sep)
+            filtered_output.append(b'')
         return encoded_line_sep.join(filtered_output)
     return _filter
 
@@ -105,7 +105,11 @@ def create_output_lines_test(expected_lines):
 def create_output_regex_test(expected_patterns):
     """Create output test given a list of expected matching regular expressions."""
     def _collate(output, addendum):
-        output.write(b'\n'.join(addendum.splitlines()))
+        lines = addendum.splitlines()
+        if addendum.endswith((b'\n', b'\r')):
+            # Keep the end of the last line, so that it isn't joined with what follows.
+            lines.append(b'')
+        output.write(b'\n'.join(lines))
         return output
 
     def _match(output, pattern):
-- 
2.43.0


From 359879972061a8297015ad6a9d5033b9ec922ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:58 +0000
Subject: [PATCH 56/62] fix: a test module which cannot be imported does not
 prevent the others from being collected

Anything but a SyntaxError raised while looking for a launch test entrypoint,
e.g. by pytest.importorskip(), made pytest skip or fail the whole directory.
---
 launch_testing/launch_testing/pytest/hooks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/pytest/hooks.py b/launch_testing/launch_testing/pytest/hooks.py
index 174c4c4..4feac9c 100644
--- a/launch_testing/launch_testing/pytest/hooks.py
+++ b/launch_testing/launch_testing/pytest/hooks.py
@@ -185,7 +185,8 @@ def find_launch_test_entrypoint(path):
             # Assume we got legacy path in earlier versions of pytest
             module = path.pyimport()
         return getattr(module, 'generate_test_description', None)
-    except SyntaxError:
+    except (Exception, pytest.skip.Exception, pytest.fail.Exception):
+        # Let pytest report on this module, and on this module only
         return None
 
 
-- 
2.43.0


From a1041a102a1237c5be0f28d22cdce519121a8e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 57/62] fix: collect __init__.py files as test modules with
 pytest 8

---
 launch_testing/launch_testing/pytest/hooks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/pytest/hooks.py b/launch_testing/launch_testing/pytest/hooks.py
index 4feac9c..ad9c2b6 100644
--- a/launch_testing/launch_testing/pytest/hooks.py
+++ b/launch_testing/launch_testing/pytest/hooks.py
@@ -202,7 +202,8 @@ def pytest_pycollect_makemodule(path, parent):
 
     if _pytest_version_ge(7):
         path = pathlib.Path(path)
-        if path.name == '__init__.py':
+        # Packages are directories, and no modules, in newer versions of pytest
+        if path.name == '__init__.py' and not _pytest_version_ge(8):
             return pytest.Package.from_parent(parent, path=path)
         return pytest.Module.from_parent(parent=parent, path=path)
     elif _pytest_version_ge(5, 4):
-- 
2.43.0


From d1d212fb5585b42d1587622f5a7ba1a97c1b6635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:16 +0000
Subject: [PATCH 58/62] fix: quiet pytest runs do not enable the debug output
 of launch tests

---
 launch_testing/launch_testing/pytest/hooks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/pytest/hooks.py b/launch_testing/launch_testing/pytest/hooks.py
index ad9c2b6..4cef678 100644
--- a/launch_testing/launch_testing/pytest/hooks.py
+++ b/launch_testing/launch_testing/pytest/hooks.py
@@ -105,7 +105,7 @@ class LaunchTestItem(pytest.Item):
         runner = self.runner_cls(
             test_runs=test_runs,
             launch_file_arguments=launch_args,
-            debug=self.config.getoption('verbose')
+            debug=self.config.getoption('verbose') > 0
         )
 
         runner.validate()
-- 
2.43.0


From 946e1d6d120a372393e66e4bbb2870645cbdac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:44 +0000
Subject: [PATCH 59/62] fix: name everything that made a launch test fail in
 the pytest report

Errors in class or module fixtures and unexpected successes were left out.
---
 launch_testing/launch_testing/pytest/hooks.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/launch_testing/launch_testing/pytest/hooks.py b/launch_testing/launch_testing/pytest/hooks.py
index 4cef678..d8ec12e 100644
--- a/launch_testing/launch_testing/pytest/hooks.py
+++ b/launch_testing/launch_testing/pytest/hooks.py
@@ -14,7 +14,6 @@
 
 import copy
 import pathlib
-from unittest import TestCase
 
 from _pytest._code.code import ReprFileLocation
 
@@ -121,8 +120,11 @@ class LaunchTestItem(pytest.Item):
             return LaunchTestFailureRepr(failures=[
                 (test_case.id(), formatted_error)
                 for test_run, test_result in excinfo.value.results.items()
-                for test_case, formatted_error in (test_result.errors + test_result.failures)
-                if isinstance(test_case, TestCase) and not test_result.wasSuccessful()
+                for test_case, formatted_error in (
+                    test_result.errors + test_result.failures +
+                    [(case, 'Unexpected success\n') for case in test_result.unexpectedSuccesses]
+                )
+                if not test_result.wasSuccessful()
             ])
         return super().repr_failure(excinfo)
 
-- 
2.43.0


From 80d14bdbbd852d25c8ff31104c72cf9ea0c783f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:03 +0000
Subject: [PATCH 60/62] fix: import launch tests the way pytest is asked to
 import tests

With --import-mode=importlib, launch tests of the same file name could not
be collected.
---
 launch_testing/launch_testing/pytest/hooks.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/launch_testing/launch_testing/pytest/hooks.py b/launch_testing/launch_testing/pytest/hooks.py
index d8ec12e..70a2ffc 100644
--- a/launch_testing/launch_testing/pytest/hooks.py
+++ b/launch_testing/launch_testing/pytest/hooks.py
@@ -161,10 +161,14 @@ class LaunchTestModule(pytest.File):
     def collect(self):
         if _pytest_version_ge(8, 1, 0):
             from _pytest.pathlib import import_path
-            module = import_path(self.path, root=None, consider_namespace_packages=False)
+            module = import_path(
+                self.path, mode=self.config.getoption('importmode'),
+                root=self.config.rootpath, consider_namespace_packages=False)
         elif _pytest_version_ge(7, 0, 0):
             from _pytest.pathlib import import_path
-            module = import_path(self.path, root=None)
+            module = import_path(
+                self.path, mode=self.config.getoption('importmode'),
+                root=self.config.rootpath)
         else:
             module = self.fspath.pyimport()
         yield self.makeitem(
@@ -175,14 +179,17 @@ class LaunchTestModule(pytest.File):
         )
 
 
-def find_launch_test_entrypoint(path):
+def find_launch_test_entrypoint(path, config):
     try:
         if _pytest_version_ge(8, 1, 0):
             from _pytest.pathlib import import_path
-            module = import_path(path, root=None, consider_namespace_packages=False)
+            module = import_path(
+                path, mode=config.getoption('importmode'),
+                root=config.rootpath, consider_namespace_packages=False)
         elif _pytest_version_ge(7, 0, 0):
             from _pytest.pathlib import import_path
-            module = import_path(path, root=None)
+            module = import_path(
+                path, mode=config.getoption('importmode'), root=config.rootpath)
         else:
             # Assume we got legacy path in earlier versions of pytest
             module = path.pyimport()
@@ -193,7 +200,7 @@ def find_launch_test_entrypoint(path):
 
 
 def pytest_pycollect_makemodule(path, parent):
-    entrypoint = find_launch_test_entrypoint(path)
+    entrypoint = find_launch_test_entrypoint(path, parent.config)
     if entrypoint is not None:
         ihook = parent.session.gethookproxy(path)
         module = ihook.pytest_launch_collect_makemodule(
-- 
2.43.0


From afd181609b23b6492453255e044dfcac1d1fabe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:47 +0000
Subject: [PATCH 61/62] fix: report errors in class and module fixtures in the
 JUnit XML

They were counted, but not to be found in any test case.
---
 launch_testing/launch_testing/junitxml.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/junitxml.py b/launch_testing/launch_testing/junitxml.py
index 34e91bf..76b7ef6 100644
--- a/launch_testing/launch_testing/junitxml.py
+++ b/launch_testing/launch_testing/junitxml.py
@@ -84,6 +84,11 @@ def unittestResultToXml(name, test_result):
     for case in test_result.testCases:
         test_suite.append(unittestCaseToXml(test_result, case))
 
+    # Class and module fixtures are no test cases, but may fail (or skip the tests) too
+    for reported, _ in test_result.errors + test_result.skipped:
+        if not any(_is_about(reported, case) for case in test_result.testCases):
+            test_suite.append(unittestCaseToXml(test_result, reported))
+
     return test_suite
 
 
@@ -101,7 +106,7 @@ def unittestCaseToXml(test_result, test_case):
     full_classname, _, methodname = full_methodname.rpartition('.')
     case_xml.set('classname', _to_xml_text(full_classname))
     case_xml.set('name', _to_xml_text((methodname + ' ' + qualifiers).strip()))
-    case_xml.set('time', str(round(test_result.testTimes[test_case], 3)))
+    case_xml.set('time', str(round(test_result.testTimes.get(test_case, 0), 3)))
 
     for failure in test_result.failures:
         # We're enumerating a list of (test_case, failure_string) tuples here
-- 
2.43.0


From 43f9bed2939e07d94b8a42491b9d67ddd17d1905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:55 +0000
Subject: [PATCH 62/62] fix: wait for what was started before a failing entity
 of the same description

---
 launch/launch/launch_service.py                     |  4 ++--
 .../visit_all_entities_and_collect_futures_impl.py  | 13 +++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 4820a44..fd7d522 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -254,8 +254,8 @@ class LaunchService:
                                 "expected a LaunchDescriptionEntity from event_handler, got '{}'"
                                 .format(entity)
                             )
-                        self._entity_future_pairs.extend(
-                            visit_all_entities_and_collect_futures(entity, self.__context))
+                        visit_all_entities_and_collect_futures(
+                            entity, self.__context, self._entity_future_pairs)
                 finally:
                     self.__context._pop_locals()
             else:
diff --git a/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py b/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py
index ff94f99..db52421 100644
--- a/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py
+++ b/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py
@@ -16,6 +16,7 @@
 
 import asyncio
 from typing import List
+from typing import Optional
 from typing import Tuple
 
 from ..launch_context import LaunchContext
@@ -24,7 +25,8 @@ from ..launch_description_entity import LaunchDescriptionEntity
 
 def visit_all_entities_and_collect_futures(
     entity: LaunchDescriptionEntity,
-    context: LaunchContext
+    context: LaunchContext,
+    future_pairs: Optional[List[Tuple[LaunchDescriptionEntity, asyncio.Future]]] = None
 ) -> List[Tuple[LaunchDescriptionEntity, asyncio.Future]]:
     """
     Visit given entity, as well as all sub-entities, and collect any futures.
@@ -34,13 +36,16 @@ def visit_all_entities_and_collect_futures(
     continuing on to more sub-entities.
 
     This function may call itself to traverse the sub-entities recursively.
+
+    :param future_pairs: if given, the futures are added to this list as they are
+        collected, so that they are known even if visiting a later entity fails.
     """
+    futures_to_return = future_pairs if future_pairs is not None else []
     sub_entities = entity.visit(context)
     entity_future = entity.get_asyncio_future()
-    futures_to_return = []
     if entity_future is not None:
         futures_to_return.append((entity, entity_future))
     if sub_entities is not None:
         for sub_entity in sub_entities:
-            futures_to_return += visit_all_entities_and_collect_futures(sub_entity, context)
-    return [future_pair for future_pair in futures_to_return if future_pair[1] is not None]
+            visit_all_entities_and_collect_futures(sub_entity, context, futures_to_return)
+    return futures_to_return
-- 
2.43.0

