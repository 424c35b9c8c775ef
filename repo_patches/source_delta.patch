From 26319871b648006d7904a718d5564dd016ecbcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 01/76] fix: release OptionalRLock when its block raises

An exception inside a guarded block (a duplicate channel name, an invalid
value) left the lock held, so every other thread blocked forever.
---
 vtelem/classes/time_entity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/time_entity.py b/vtelem/classes/time_entity.py
index 9975a95..5ab9c72 100644
--- a/vtelem/classes/time_entity.py
+++ b/vtelem/classes/time_entity.py
@@ -38,9 +38,9 @@ class OptionalRLock(AbstractContextManager):
         return self.item
 
     def __exit__(self, exc_type, __, ___) -> Literal[False]:
-        """Release the lock if no exception was raised."""
+        """Release the lock (if we have one) on every exit path."""
 
-        if exc_type is None and self.lock is not None:
+        if self.lock is not None:
             self.lock.release()
         return False
 
-- 
2.43.0


From ed0be6d10e9d1cf7a7925ecf8770e07188008847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 02/76] fix: keep the stream writer alive when an output fails
 or is removed

A short write, a stream closed by its owner, a stream without a name or a
removal concurrent with a write error ended the writer thread, which
silently stopped all telemetry outputs.
---
 vtelem/stream/writer.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index e7bedaf..35483c7 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -5,6 +5,7 @@ vtelem - Uses daemon machinery to build the task that can consume outgoing
 
 # built-in
 from contextlib import contextmanager
+import errno
 from io import BytesIO
 import logging
 from pathlib import Path
@@ -79,23 +80,21 @@ class StreamWriter(QueueDaemon):
                 to_remove = []
                 for stream_id, stream in streams.items():
                     try:
-                        assert stream.write(array) == size
+                        if stream.write(array) != size:
+                            raise OSError(errno.EIO, "short write")
                         if self.stream_attrs[stream_id]["flush"]:
                             stream.flush()
                         self.increment_metric("stream_writes")
                         self.increment_metric("bytes_written", size)
-                    except OSError as exc:
-                        msg = (
-                            "stream '%s' (%d) error writing %d "
-                            + "bytes: %s (%d)"
-                        )
+                    except (OSError, ValueError) as exc:
+                        # closing a stream that's still registered causes a
+                        # 'ValueError' when it's written
                         LOG.error(
-                            msg,
-                            stream.name,
+                            "stream '%s' (%d) error writing %d bytes: %s",
+                            getattr(stream, "name", stream),
                             stream_id,
                             len(array),
-                            exc.strerror,
-                            exc.errno,
+                            exc,
                         )
                         to_remove.append((stream_id, stream))
 
@@ -103,7 +102,7 @@ class StreamWriter(QueueDaemon):
                 for stream_id, stream in to_remove:
                     LOG.warning(
                         "removing stream '%s' (%d) errors writing",
-                        stream.name,
+                        getattr(stream, "name", stream),
                         stream_id,
                     )
 
@@ -111,7 +110,8 @@ class StreamWriter(QueueDaemon):
                     if self.error_handle is not None:
                         self.error_handle(stream_id)
 
-                    assert self.remove_stream(stream_id)
+                    # it may have been removed by its owner in the meantime
+                    self.remove_stream(stream_id)
 
             # add to queues
             for queue in queues:
-- 
2.43.0


From 9a5868acb44b3e788982eecf10f4630b6abdd513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 03/76] fix: register the bytes_written metric when the writer
 is created

Registering it with the first write takes the environment's lock, which a
dispatch holds while it waits for this writer to drain the frame queue.
---
 vtelem/stream/writer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index 35483c7..2c3d71a 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -122,6 +122,7 @@ class StreamWriter(QueueDaemon):
 
         # register and reset additional metrics
         self.reset_metric("stream_writes")
+        self.reset_metric("bytes_written")
         self.reset_metric("stream_count")
         self.reset_metric("queue_writes")
         self.reset_metric("queue_count")
-- 
2.43.0


From d8715f384328c9e6e0488d05905bb7b7971b4bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 04/76] fix: ignore failing streams that are not udp clients

The writer reports every failing stream (a tcp client that went away, or a
client removed at the same time) to this handler, which raised KeyError
and ended the writer thread.
---
 vtelem/classes/udp_client_manager.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index 7277311..4f84b73 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -40,13 +40,18 @@ class UdpClientManager(LockEntity):
             """
 
             with self.lock:
-                sock, sock_file = self.clients[stream_id]
-                del self.clients[stream_id]
+                client = self.clients.pop(stream_id, None)
+
+            # not one of ours, or already closed
+            if client is None:
+                return
+
+            sock, sock_file = client
             name = sock.getsockname()
             LOG.info("closing stream client '%s:%d'", name[0], name[1])
             try:
                 sock_file.close()
-            except ConnectionRefusedError:  # pragma: no cover
+            except OSError:  # pragma: no cover
                 pass
             finally:
                 sock.close()
-- 
2.43.0


From 7fd5f58e3a949e3f07254513b1af8895997d3cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:36 +0000
Subject: [PATCH 05/76] fix: survive commands that are malformed or whose
 handler raises

An unknown enum value, a non-numeric increment, a missing udp port or an
unhashable command name ended the command thread; every later command
timed out. Looking up an unknown command also made it known to 'help'.
---
 vtelem/daemon/command_queue.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index f6a3ba6..47dd63c 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -49,14 +49,16 @@ class CommandQueueDaemon(QueueDaemon):
 
             # make sure the element is a dictionary, has "command", has a
             # handler registered
-            if not isinstance(elem, dict) or "command" not in elem:
+            if not isinstance(elem, dict) or not isinstance(
+                elem.get("command"), str
+            ):
                 err = f"{self.name}: unknown or malformed command, rejected"
                 LOG.error(err)
                 self.increment_metric("rejected_count")
                 if cmd_cb is not None:
                     cmd_cb(False, err)
                 return None
-            if not self.handlers[elem["command"]]:
+            if not self.handlers.get(elem["command"]):
                 err = (
                     f"{self.name}: command '{elem['command']}' "
                     "has no handlers, rejected"
@@ -75,7 +77,14 @@ class CommandQueueDaemon(QueueDaemon):
             # execute command
             handlers = self.handlers[elem["command"]]
             for handler, result_cb, _ in handlers:
-                result, message = handler(cmd_data)
+                try:
+                    result, message = handler(cmd_data)
+                except Exception as exc:  # pylint:disable=broad-except
+                    # a failing handler shouldn't stop the servicing of
+                    # subsequent commands
+                    LOG.exception("%s: command handler failed", self.name)
+                    result = False
+                    message = f"handler failed: {type(exc).__name__}: {exc}"
                 if result_cb is not None:
                     result_cb(result, message)
                 if cmd_cb is not None:
@@ -89,7 +98,7 @@ class CommandQueueDaemon(QueueDaemon):
                     "%s: command '%s' '%s' %s, '%s'",
                     self.name,
                     elem["command"],
-                    json.dumps(cmd_data),
+                    json.dumps(cmd_data, default=str),
                     status,
                     message,
                 )
-- 
2.43.0


From 6ee5060dec0a92b288f94cf2de48268f13833cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:36 +0000
Subject: [PATCH 06/76] fix: don't register placeholders when looking up
 unknown names

Looking up an unknown name or identifier added a null entry that then
appeared in the registry's description.
---
 vtelem/registry/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/registry/__init__.py b/vtelem/registry/__init__.py
index 9ecff56..81c088d 100644
--- a/vtelem/registry/__init__.py
+++ b/vtelem/registry/__init__.py
@@ -49,7 +49,7 @@ class Registry(Generic[T]):
         """Obtain an item's data by its integer identifier."""
 
         with self.lock:
-            result = self.data[self.type_name][item_id]
+            result = self.data[self.type_name].get(item_id)
         return result
 
     def get_id(self, name: str) -> Optional[int]:
@@ -58,7 +58,7 @@ class Registry(Generic[T]):
         """
 
         with self.lock:
-            result = self.data["mappings"][name]
+            result = self.data["mappings"].get(name)
         return result
 
     def add(self, name: str, data: T) -> Tuple[bool, int]:
-- 
2.43.0


From 5685a5b542693de0c0c21d6be538fb6b8e4b8cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 07/76] fix: make channel updates atomic

Concurrent 'set' and 'add' calls lost updates and enqueued change events
with a 'previous' value that was not the preceding event's 'current' value.
---
 vtelem/channel/__init__.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/vtelem/channel/__init__.py b/vtelem/channel/__init__.py
index 24c5434..eb9319e 100644
--- a/vtelem/channel/__init__.py
+++ b/vtelem/channel/__init__.py
@@ -4,13 +4,14 @@ vtelem - A storage class that emits on an interval.
 
 # built-in
 from json import JSONEncoder
+from threading import RLock
 from typing import Any, Optional
 
 # internal
 from vtelem.classes import EventType
 from vtelem.classes.event_queue import EventQueue
 from vtelem.classes.type_primitive import TypePrimitive
-from vtelem.enums.primitive import Primitive
+from vtelem.enums.primitive import Primitive, PrimitiveValue
 
 
 class Channel(TypePrimitive):
@@ -46,6 +47,7 @@ class Channel(TypePrimitive):
 
             changed_cb = new_changed_cb
 
+        self.lock = RLock()
         super().__init__(instance, changed_cb)
         self.name = name
         self.rate = rate
@@ -53,6 +55,18 @@ class Channel(TypePrimitive):
         self.is_stream = is_stream
         self.last_emitted: float = float()
 
+    def add(self, data: PrimitiveValue, time: float = None) -> bool:
+        """Atomically add some amount to this channel's value."""
+
+        with self.lock:
+            return super().add(data, time)
+
+    def set(self, data: PrimitiveValue, time: float = None) -> bool:
+        """Atomically set this channel's value (and enqueue the change)."""
+
+        with self.lock:
+            return super().set(data, time)
+
     def command(
         self, value: Any, time: float = None, add: bool = False
     ) -> bool:
-- 
2.43.0


From c0b87737c3bd6c06c8a3a83155605200b05e1941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 08/76] fix: publish daemon metrics in the order they change

The metric was computed under the daemon's lock but published after
releasing it, so that a stale value could overwrite a newer one.
---
 vtelem/daemon/__init__.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index d96c747..8a9b8a4 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -180,17 +180,17 @@ class DaemonBase(TimeEntity):
             transition = old_state != state
             self.state = state
 
-        if transition:
-            self.function["state_change"](old_state, state, self.get_time())
-
             # set the metric channel
-            if self.env is not None:
+            if transition and self.env is not None:
                 self.env.set_enum_metric(
                     self.get_metric_name("state"),
                     self.get_state_str(),
                     self.get_time(),
                 )
 
+        if transition:
+            self.function["state_change"](old_state, state, self.get_time())
+
         return transition
 
     def set_env_metric(
@@ -211,7 +211,7 @@ class DaemonBase(TimeEntity):
 
         with self.lock:
             self.function["metrics_data"][name] = val
-        self.set_env_metric(name, val)
+            self.set_env_metric(name, val)
 
     def increment_metric(self, name: str, value: Any = 1) -> None:
         """Increment a named metric."""
@@ -219,7 +219,7 @@ class DaemonBase(TimeEntity):
         with self.lock:
             val = self.function["metrics_data"][name] + value
             self.function["metrics_data"][name] = val
-        self.set_env_metric(name, val)
+            self.set_env_metric(name, val)
 
     def decrement_metric(self, name: str, value: Any = 1) -> None:
         """Decrement a named metric."""
@@ -227,7 +227,7 @@ class DaemonBase(TimeEntity):
         with self.lock:
             val = self.function["metrics_data"][name] - value
             self.function["metrics_data"][name] = val
-        self.set_env_metric(name, val)
+            self.set_env_metric(name, val)
 
     def get_state(self) -> DaemonState:
         """Query this daemon's current state."""
-- 
2.43.0


From a4ee2d6f59f1984061044feb90473bc07254fb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 09/76] fix: register metrics atomically

Two threads adding the same metric could both find it missing, the second
one then failed when registering the channel.
---
 vtelem/channel/environment.py   | 11 ++++++-----
 vtelem/telemetry/environment.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 9646f5d..9fb2485 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -111,11 +111,12 @@ class ChannelEnvironment(TimeEntity):
     ) -> None:
         """Add a new, named metric channel"""
 
-        if self.metrics is not None and not self.has_metric(name):
-            self.metrics[name] = self.add_channel(
-                name, instance, float(), track_change, initial, False
-            )
-            self.set_metric_rate(name, self.get_metric("metrics_rate"))
+        with self.lock:
+            if self.metrics is not None and not self.has_metric(name):
+                self.metrics[name] = self.add_channel(
+                    name, instance, float(), track_change, initial, False
+                )
+                self.set_metric_rate(name, self.get_metric("metrics_rate"))
 
     def get_metric(self, name: str) -> Any:
         """Get the value from a metrics channel."""
diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 4f014c5..bc80cc1 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -123,11 +123,12 @@ class TelemetryEnvironment(ChannelEnvironment):
     ) -> None:
         """Add a metric based on an enumeration definition."""
 
-        if self.metrics is not None and not self.has_metric(name):
-            self.metrics[name] = self.add_enum_channel(
-                name, enum_name, float(), track_change, initial, False
-            )
-            self.set_metric_rate(name, self.get_metric("metrics_rate"))
+        with self.lock:
+            if self.metrics is not None and not self.has_metric(name):
+                self.metrics[name] = self.add_enum_channel(
+                    name, enum_name, float(), track_change, initial, False
+                )
+                self.set_metric_rate(name, self.get_metric("metrics_rate"))
 
     def set_enum_metric(
         self, name: str, data: str, time: float = None
-- 
2.43.0


From 8aecbb2e6630c96af3240d476550b2c476fa44dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:00 +0000
Subject: [PATCH 10/76] fix: count a stream before the writer may remove it

A stream failing right after its registration was un-counted before it was
counted; setting the metric to a negative value ended the writer.
---
 vtelem/stream/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index 2c3d71a..8c001fb 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -148,7 +148,7 @@ class StreamWriter(QueueDaemon):
             result = self.queue_id
             self.queues[result] = queue
             self.queue_id += 1
-        self.increment_metric("queue_count")
+            self.increment_metric("queue_count")
         return result
 
     def registered_queue(
@@ -175,7 +175,7 @@ class StreamWriter(QueueDaemon):
             self.stream_closers[result] = stream_closer
             self.stream_attrs[result]["flush"] = flush
             self.curr_id += 1
-        self.increment_metric("stream_count")
+            self.increment_metric("stream_count")
         return result
 
     @contextmanager
-- 
2.43.0


From d7927a1d2bb49149b1ed53f8e24990011dfb83f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:00 +0000
Subject: [PATCH 11/76] fix: scale only future time and allow sleeping while
 time is frozen

Changing the scalar also re-scaled the time elapsed since the last
iteration, and a scalar of zero ended every sleeping daemon with a
'ZeroDivisionError'.
---
 vtelem/classes/time_keeper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/time_keeper.py b/vtelem/classes/time_keeper.py
index d9b4c00..373b521 100644
--- a/vtelem/classes/time_keeper.py
+++ b/vtelem/classes/time_keeper.py
@@ -71,9 +71,12 @@ class TimeKeeper(Daemon):
 
         if scalar >= 0.0:
             with self.lock:
+                # time that already elapsed isn't affected
+                self.iteration()
                 self.scalar = scalar
 
     def sleep(self, amount: float) -> None:
         """Sleep for the specified amount, scaled appropriately."""
 
-        self.sleep_function(amount / self.scalar)
+        # sleep for the unscaled amount if time isn't advancing
+        self.sleep_function(amount / (self.scalar or 1.0))
-- 
2.43.0


From 83a1298dab752c502e407065fe36844fb4030b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:12 +0000
Subject: [PATCH 12/76] fix: reject values that a 32-bit float can't hold

A channel accepted them, every dispatch of that channel then raised an
'OverflowError' when packing the value.
---
 vtelem/enums/primitive.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/vtelem/enums/primitive.py b/vtelem/enums/primitive.py
index b31bb9f..4a31565 100644
--- a/vtelem/enums/primitive.py
+++ b/vtelem/enums/primitive.py
@@ -11,6 +11,7 @@ vtelem - A definition of the supported primitive types for this library.
 from enum import Enum
 from json import JSONEncoder
 import random
+import struct
 from typing import Any, Callable, NamedTuple, Tuple, Type, Union
 
 # internal
@@ -48,6 +49,16 @@ def integer_can_hold(prim: BasePrimitive, val: int) -> bool:
     return prim.min <= val <= prim.max
 
 
+def float_can_hold(prim: BasePrimitive, val: float) -> bool:
+    """Check that a floating-point value can be encoded."""
+
+    try:
+        struct.pack("!" + prim.fmt, val)
+    except OverflowError:
+        return False
+    return True
+
+
 class Primitive(Enum):
     """
     An enumeration containing the supported primitive types and their 'struct'
@@ -127,7 +138,9 @@ class Primitive(Enum):
         *integer_bounds(8, False),
         integer_can_hold,
     )
-    FLOAT = BasePrimitive("f", float, 4, "float", True)
+    FLOAT = BasePrimitive(
+        "f", float, 4, "float", True, validate=float_can_hold
+    )
     DOUBLE = BasePrimitive("d", float, 8, "double", True)
 
 
-- 
2.43.0


From ceb5450d4b6a705645f344ea109e39e388e915da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:05 +0000
Subject: [PATCH 13/76] fix: don't count elements that didn't fit in the queue

---
 vtelem/classes/metered_queue.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/metered_queue.py b/vtelem/classes/metered_queue.py
index 48a584a..88afcff 100644
--- a/vtelem/classes/metered_queue.py
+++ b/vtelem/classes/metered_queue.py
@@ -3,7 +3,7 @@ vtelem - Allows queues to publish telemetry metrics.
 """
 
 # built-in
-from queue import Queue
+from queue import Full, Queue
 from typing import Any
 
 # internal
@@ -58,7 +58,12 @@ class MeteredQueue(Queue):
         time = self.env.get_time()
         self.env.metric_add(f"{self.name}.elements", 1, time)
         self.env.metric_add(f"{self.name}.total_enqueued", 1, time)
-        super().put(item, block, timeout)
+        try:
+            super().put(item, block, timeout)
+        except Full:
+            self.env.metric_add(f"{self.name}.elements", -1, time)
+            self.env.metric_add(f"{self.name}.total_enqueued", -1, time)
+            raise
 
 
 def create(
-- 
2.43.0


From 7afd54b666b37fee0941daa5370d50dffba017cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:13 +0000
Subject: [PATCH 14/76] fix: add channels to a group under the environment's
 lock

Adding a channel while another thread reads the group made the read fail
with 'dictionary changed size during iteration'.
---
 vtelem/channel/group.py | 60 ++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/vtelem/channel/group.py b/vtelem/channel/group.py
index 8b0faa7..dbbee43 100644
--- a/vtelem/channel/group.py
+++ b/vtelem/channel/group.py
@@ -37,20 +37,25 @@ class ChannelGroup:
         """
 
         # the environment should catch duplicate channel names for us
-        try:
-            val = default_val(instance)
-            real_name = f"{self.name}.{name}"
-            chan_id = self.env.add_channel(
-                real_name,
-                instance,
-                rate,
-                track_change,
-                (val, self.env.get_time()),
-            )
-        except AssertionError:
-            return False
-
-        self.channels[name] = {"id": chan_id, "value": val, "is_enum": False}
+        with self.env.lock:
+            try:
+                val = default_val(instance)
+                real_name = f"{self.name}.{name}"
+                chan_id = self.env.add_channel(
+                    real_name,
+                    instance,
+                    rate,
+                    track_change,
+                    (val, self.env.get_time()),
+                )
+            except AssertionError:
+                return False
+
+            self.channels[name] = {
+                "id": chan_id,
+                "value": val,
+                "is_enum": False,
+            }
         return True
 
     def add_enum_channel(
@@ -76,19 +81,20 @@ class ChannelGroup:
         val = enum.default
 
         # the environment should catch duplicate channel names for us
-        try:
-            real_name = f"{self.name}.{name}"
-            chan_id = self.env.add_enum_channel(
-                real_name,
-                enum_name,
-                rate,
-                track_change,
-                (val, self.env.get_time()),
-            )
-        except AssertionError:
-            return False
-
-        self.channels[name] = {"id": chan_id, "is_enum": True}
+        with self.env.lock:
+            try:
+                real_name = f"{self.name}.{name}"
+                chan_id = self.env.add_enum_channel(
+                    real_name,
+                    enum_name,
+                    rate,
+                    track_change,
+                    (val, self.env.get_time()),
+                )
+            except AssertionError:
+                return False
+
+            self.channels[name] = {"id": chan_id, "is_enum": True}
         return True
 
     @contextmanager
-- 
2.43.0


From 3d1b5d6b6f9ee0c251534fbf302887505c7f748e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:31 +0000
Subject: [PATCH 15/76] fix: run state-machine iterations atomically

The state to run was chosen before acquiring the lock, so an iteration could
run (and leave) a state that wasn't current anymore. Metrics and the returned
end state were read after releasing it.
---
 vtelem/classes/state_machine.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/vtelem/classes/state_machine.py b/vtelem/classes/state_machine.py
index 0f5c912..dda8754 100644
--- a/vtelem/classes/state_machine.py
+++ b/vtelem/classes/state_machine.py
@@ -83,14 +83,13 @@ class StateMachine(LockEntity):
         states.
         """
 
-        if new_data is not None:
-            with self.lock:
+        with self.lock:
+            if new_data is not None:
                 self._data.update(new_data)
 
-        curr = self.states[self.current_state]
-        assert curr is not None
+            curr = self.states[self.current_state]
+            assert curr is not None
 
-        with self.lock:
             new = curr.run(self._data)
             assert new in self.states
 
@@ -123,14 +122,14 @@ class StateMachine(LockEntity):
                     )
                     exit_failed = True
 
-        # increment metrics
-        if self.metrics is not None:
-            with self.metrics.data() as metrics_data:
-                metrics_data["enter_fails"] += int(enter_failed)
-                metrics_data["exit_fails"] += int(exit_failed)
-                metrics_data["transitions"] += int(transitioned)
-                metrics_data["iterations"] += 1
-
-        actual_new = self.states[self.current_state]
-        assert actual_new is not None
-        return (curr, actual_new)
+            # increment metrics
+            if self.metrics is not None:
+                with self.metrics.data() as metrics_data:
+                    metrics_data["enter_fails"] += int(enter_failed)
+                    metrics_data["exit_fails"] += int(exit_failed)
+                    metrics_data["transitions"] += int(transitioned)
+                    metrics_data["iterations"] += 1
+
+            actual_new = self.states[self.current_state]
+            assert actual_new is not None
+            return (curr, actual_new)
-- 
2.43.0


From a7c6fc69c46bf2fb6f07e532f890de2badbc43b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:31 +0000
Subject: [PATCH 16/76] fix: reject invalid enums and enum channels without
 side effects

An enum channel with an unknown enum or initial value was registered before
its arguments were found to be invalid. An enum whose name is taken by a
primitive type was added although it couldn't be exported, which made adding
any other enum fail.
---
 vtelem/telemetry/environment.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index bc80cc1..e6476b3 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -100,18 +100,24 @@ class TelemetryEnvironment(ChannelEnvironment):
     ) -> int:
         """Add a channel that stores an enumeration value."""
 
-        new_chan = self.add_channel(
-            name, DEFAULTS["enum"], rate, track_change, None, commandable
-        )
+        # make sure the arguments are valid before adding the channel
         enum_type = self.enum_registry.get_id(enum_name)
         assert enum_type is not None
-        self.enum_channel_types[new_chan] = enum_type
+        value: Optional[Tuple[int, Optional[float]]] = None
         if initial is not None:
-            chan = self.registries["channel"].get_item(new_chan)
-            assert chan is not None
             enum_def = self.enum_registry.get_item(enum_type)
             assert enum_def is not None
-            assert chan.set(enum_def.get_value(initial[0]), initial[1])
+            value = (enum_def.get_value(initial[0]), initial[1])
+
+        with self.lock:
+            new_chan = self.add_channel(
+                name, DEFAULTS["enum"], rate, track_change, None, commandable
+            )
+            self.enum_channel_types[new_chan] = enum_type
+            if value is not None:
+                assert self.registries["channel"].get_item(new_chan).set(
+                    *value
+                )
         return new_chan
 
     def add_enum_metric(
@@ -190,6 +196,9 @@ class TelemetryEnvironment(ChannelEnvironment):
         with self.lock:
             if self.has_enum(enum):
                 return self.enum_registry.get_enum(enum)[1]
+
+            # don't allow an enum that can't be exported
+            assert self.type_registry.get_id(enum.name) is None
             result = self.enum_registry.add_enum(enum)
             assert result[0]
             assert self.enum_registry.export(self.type_registry)
-- 
2.43.0


From 36b5d7a1e489edb7550ec616ffdd353ae64fe2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:31 +0000
Subject: [PATCH 17/76] fix: don't partially write a group with invalid entries

---
 vtelem/channel/group.py         | 10 +++++++---
 vtelem/telemetry/environment.py | 16 ++++++++++++----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/vtelem/channel/group.py b/vtelem/channel/group.py
index dbbee43..61817e1 100644
--- a/vtelem/channel/group.py
+++ b/vtelem/channel/group.py
@@ -126,10 +126,14 @@ class ChannelGroup:
         """Write the values into the environment."""
 
         with self.env.lock:
+            # don't write anything if something can't be written
+            to_set = []
             for name, value in values.items():
                 assert name in self.channels
                 chan = self.channels[name]
                 if chan["is_enum"]:
-                    self.env.set_enum_now(chan["id"], value)
-                else:
-                    self.env.set_now(chan["id"], value)
+                    value = self.env.get_enum(chan["id"]).get_value(value)
+                to_set.append((chan["id"], value))
+
+            for chan_id, value in to_set:
+                self.env.set_now(chan_id, value)
diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index e6476b3..cca3145 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -167,13 +167,21 @@ class TelemetryEnvironment(ChannelEnvironment):
         assert enum_def is not None
         return enum_def.get_str(self.get_value(chan_id))
 
+    def get_enum(self, chan_id: int) -> UserEnum:
+        """Get the enum definition of an enum channel."""
+
+        enum_def = self.enum_registry.get_item(
+            self.enum_channel_types[chan_id]
+        )
+        assert enum_def is not None
+        return enum_def
+
     def set_enum_now(self, channel_id: int, data: str) -> bool:
         """Set an enum channel with the provided value, assign time."""
 
-        enum_type = self.enum_channel_types[channel_id]
-        enum_def = self.enum_registry.get_item(enum_type)
-        assert enum_def is not None
-        return self.set_now(channel_id, enum_def.get_value(data))
+        return self.set_now(
+            channel_id, self.get_enum(channel_id).get_value(data)
+        )
 
     def add_from_enum(self, enum_class: Type[IntEnum]) -> int:
         """Add an enumeration from an enum class."""
-- 
2.43.0


From d4a1a26cadd3c1900b8df915a59aab7a1600a4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:31 +0000
Subject: [PATCH 18/76] fix: don't register daemons when looking up unknown
 names

A lookup left a 'None' behind, which broke querying the daemons' states and
performing operations on all daemons.
---
 vtelem/daemon/manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/daemon/manager.py b/vtelem/daemon/manager.py
index 943942e..b8cfdb0 100644
--- a/vtelem/daemon/manager.py
+++ b/vtelem/daemon/manager.py
@@ -35,7 +35,7 @@ class DaemonManager(LockEntity):
         """Get a daemon object by name."""
 
         assert name not in NAME_DENYLIST
-        return self.daemons[name]
+        return self.daemons.get(name)
 
     def add_daemon(
         self, daemon: DaemonBase, depends_on: List[str] = None
@@ -75,7 +75,7 @@ class DaemonManager(LockEntity):
 
             # determine if we can execute yet
             to_execute: List[str] = []
-            curr_deps = self.depends_on[curr]
+            curr_deps = self.depends_on.get(curr)
             if curr_deps:
                 for dep in curr_deps:
                     if dep not in executed:
-- 
2.43.0


From 4ff95621253c305be6ce357d4fc77675684cda74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:31 +0000
Subject: [PATCH 19/76] fix: don't extend enums when looking up unknown values

---
 vtelem/classes/user_enum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/user_enum.py b/vtelem/classes/user_enum.py
index 4b1ade8..66e293a 100644
--- a/vtelem/classes/user_enum.py
+++ b/vtelem/classes/user_enum.py
@@ -98,12 +98,12 @@ class UserEnum(Serializable):
         """Look up the String represented by the integer enum value."""
 
         mappings = cast(ObjectMap, self.data["mappings"])
-        return cast(str, mappings[val])
+        return cast(str, mappings.get(val, "unknown"))
 
     def get_value(self, val: str) -> int:
         """Get the integer value of an enum String."""
 
-        result = self.strings[val.lower()]
+        result = self.strings.get(val.lower())
         assert result is not None
         return result
 
@@ -115,7 +115,7 @@ class UserEnum(Serializable):
         """
 
         result = new_default("enum", changed_cb)
-        val = self.strings[value.lower()]
+        val = self.strings.get(value.lower())
         assert val is not None
         assert result.set(val)
         return result
-- 
2.43.0


From 6a9d1b9fc59b240cd3dccc5939925b0d8dde4da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:31 +0000
Subject: [PATCH 20/76] fix: don't let a failing state-change callback break
 the state machine

An exception from the callback left a daemon in a state that its thread never
reached (e.g. 'STARTING' without a thread), it couldn't be used afterwards.
---
 vtelem/daemon/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 8a9b8a4..9845023 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -189,7 +189,13 @@ class DaemonBase(TimeEntity):
                 )
 
         if transition:
-            self.function["state_change"](old_state, state, self.get_time())
+            try:
+                self.function["state_change"](
+                    old_state, state, self.get_time()
+                )
+            except Exception:  # pylint: disable=broad-except
+                # the state already changed
+                LOG.exception("%s: state-change callback failed", self.name)
 
         return transition
 
-- 
2.43.0


From 43727fa20510a5759e21f6bb2750f7cc94068965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:31 +0000
Subject: [PATCH 21/76] fix: keep the stream writer alive when an output's
 owner fails

---
 vtelem/stream/writer.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index 8c001fb..f99804a 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -106,12 +106,18 @@ class StreamWriter(QueueDaemon):
                         stream_id,
                     )
 
-                    # signal parent that their stream may be broken
-                    if self.error_handle is not None:
-                        self.error_handle(stream_id)
+                    try:
+                        # signal parent that their stream may be broken
+                        if self.error_handle is not None:
+                            self.error_handle(stream_id)
+                    except Exception:  # pylint: disable=broad-except
+                        LOG.exception("error handler failed")
 
-                    # it may have been removed by its owner in the meantime
-                    self.remove_stream(stream_id)
+                    try:
+                        # it may have been removed by its owner in the meantime
+                        self.remove_stream(stream_id)
+                    except Exception:  # pylint: disable=broad-except
+                        LOG.exception("closing stream %d failed", stream_id)
 
             # add to queues
             for queue in queues:
@@ -223,10 +229,10 @@ class StreamWriter(QueueDaemon):
                 del self.streams[stream_id]
                 closer = self.stream_closers[stream_id]
                 del self.stream_closers[stream_id]
-        if closer is not None and call_closer:
-            closer()
         if result:
             self.decrement_metric("stream_count")
+        if closer is not None and call_closer:
+            closer()
         return result
 
     def remove_queue(self, queue_id: int, inject_none: bool = True) -> bool:
-- 
2.43.0


From 10e4325de230aa0d1844358e47f6ee210626243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:36 +0000
Subject: [PATCH 22/76] fix: only report messages that are complete and intact

Duplicated fragments were counted as new ones, fragments of differently
fragmented copies of a message were mixed, fragments were loaded from the
wrong directory and torn or missing fragment files weren't detected.
---
 vtelem/message/cache.py | 122 ++++++++++++++++++++++++++--------------
 1 file changed, 81 insertions(+), 41 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index a8197df..2d1cc97 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -11,6 +11,7 @@ from typing import Callable, Dict, Iterator, List, Optional, Tuple
 # internal
 from vtelem.classes.data_cache import DataCache
 from vtelem.frame.fields import to_parsed
+from vtelem.frame.message import MessageFrame
 from vtelem.types.frame import FrameType, MessageType, ParsedFrame
 
 MessageCallback = Callable[[MessageType, int, bytes], None]
@@ -101,36 +102,78 @@ class MessageCache(DataCache, MessageDispatcher):
 
             # load data for all crc's from this message type
             for crc in os.listdir(curr):
-                crc_int = int(crc)
-                if crc_int not in type_data:
-                    type_data[crc_int] = {}
-                crc_data = type_data[crc_int]
-                curr = os.path.join(curr, crc)
+                crc_data = type_data.setdefault(int(crc), {})
+                crc_dir = os.path.join(curr, crc)
 
-                # load all fragments for this message's crc
-                for fragment in os.listdir(curr):
-                    with open(os.path.join(curr, fragment), "rb") as frag:
-                        crc_data[int(fragment)] = frag.read()
+                # load data for all fragmentations of this message
+                for total in os.listdir(crc_dir):
+                    total_data = crc_data.setdefault(int(total), {})
+                    total_dir = os.path.join(crc_dir, total)
+
+                    # load all fragments
+                    for fragment in os.listdir(total_dir):
+                        path = os.path.join(total_dir, fragment)
+                        with open(path, "rb") as frag:
+                            total_data[int(fragment)] = frag.read()
+
+        # messages are only complete if their fragments are still intact
+        for mtype in MessageType:
+            for crc, data in self.data[str(mtype.value)].items():
+                if data["complete"]:
+                    data["complete"] = (
+                        self.combine(mtype, int(crc), data["fragments"])
+                        is not None
+                    )
+
+    def combine(
+        self, mtype: MessageType, crc: int, total: int
+    ) -> Optional[bytearray]:
+        """
+        Attempt to combine a message's fragments, if all of them are present
+        and intact.
+        """
+
+        fragments = self.fragment_data[mtype.value].get(crc, {}).get(total, {})
+        data = bytearray()
+        for i in range(total):
+            if i not in fragments:
+                return None
+            data += fragments[i]
+        return data if MessageFrame.messag_crc(data) == crc else None
 
     def store_fragment(
-        self, mtype: MessageType, crc: int, fragment_index: int, data: bytes
+        self,
+        mtype: MessageType,
+        crc: int,
+        total: int,
+        fragment_index: int,
+        data: bytes,
     ) -> None:
         """Store a message fragment to disk."""
 
-        # store data
-        to_write = self.fragment_data[mtype.value]
-        if crc not in to_write:
-            to_write[crc] = {}
-        to_write = to_write[crc]
-        to_write[fragment_index] = data
+        fragments = (
+            self.fragment_data[mtype.value]
+            .setdefault(crc, {})
+            .setdefault(total, {})
+        )
+
+        # don't write a fragment that's already stored
+        if fragments.get(fragment_index) == data:
+            return
+        fragments.pop(fragment_index, None)
 
         # write data to disk
-        path = os.path.join(self.fragment_dir, str(mtype.value), str(crc))
+        path = os.path.join(
+            self.fragment_dir, str(mtype.value), str(crc), str(total)
+        )
         os.makedirs(path, exist_ok=True)
         path = os.path.join(path, str(fragment_index))
         with open(path, "wb") as frag:
             frag.write(data)
 
+        # store data
+        fragments[fragment_index] = data
+
     def complete(self, mtype: MessageType) -> List[int]:
         """Get complete messages (by checksum) for a given type."""
 
@@ -153,13 +196,8 @@ class MessageCache(DataCache, MessageDispatcher):
             return None
 
         message = type_data[crc_str]
-        fragments = self.fragment_data[mtype.value][crc]
-
-        # combine fragments
-        data = bytearray()
-        for i in range(message["fragments"]):
-            data += fragments[i]
-
+        data = self.combine(mtype, crc, message["fragments"])
+        assert data is not None
         return message["number"], data
 
     def content_str(
@@ -197,23 +235,25 @@ class MessageCache(DataCache, MessageDispatcher):
             return
 
         # store this message fragment if we don't have it
-        if message.fragment_index not in crc_data:
-            self.store_fragment(
-                message.type, message.crc, message.fragment_index, message.data
-            )
-            crc_data["fragments"] += 1
-
-            # mark this message as complete if we now have all of the fragments
-            if crc_data["fragments"] == message.total_fragments:
-                crc_data["complete"] = True
-                crc_data["number"] = message.number
-
-                # service message consumers
-                full_message = self.content(message.type, message.crc)
-                assert full_message is not None
-                self.service_callbacks(
-                    message.type, full_message[0], full_message[1]
-                )
+        self.store_fragment(
+            message.type,
+            message.crc,
+            message.total_fragments,
+            message.fragment_index,
+            message.data,
+        )
+
+        # mark this message as complete if we now have all of the fragments
+        full_message = self.combine(
+            message.type, message.crc, message.total_fragments
+        )
+        if full_message is not None:
+            crc_data["fragments"] = message.total_fragments
+            crc_data["complete"] = True
+            crc_data["number"] = message.number
+
+            # service message consumers
+            self.service_callbacks(message.type, message.number, full_message)
 
 
 @contextmanager
-- 
2.43.0


From c19371582c0cc1b33938a10787f2b9c17d3efd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:36 +0000
Subject: [PATCH 23/76] fix: write cache contents atomically

---
 vtelem/classes/data_cache.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/data_cache.py b/vtelem/classes/data_cache.py
index 7374f14..d9a9c5e 100644
--- a/vtelem/classes/data_cache.py
+++ b/vtelem/classes/data_cache.py
@@ -41,7 +41,17 @@ class DataCache:
     def write(self) -> None:
         """Write cache contents to disk."""
 
-        ARBITER.encode_directory(self.cache_dir, self.data, "yaml")
+        # don't expose partially-written files if this gets interrupted
+        tmp_dir = self.cache_dir + "_tmp"
+        shutil.rmtree(tmp_dir, ignore_errors=True)
+        os.makedirs(tmp_dir)
+        assert ARBITER.encode_directory(tmp_dir, self.data, "yaml")[0]
+        for key in self.data:
+            name = f"{key}.yaml"
+            os.replace(
+                os.path.join(tmp_dir, name), os.path.join(self.cache_dir, name)
+            )
+        shutil.rmtree(tmp_dir, ignore_errors=True)
 
     def clean(self) -> None:
         """Clean the cache contents from disk."""
-- 
2.43.0


From ce5e62f7ed11d8f7222699c54310436c60266682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:36 +0000
Subject: [PATCH 24/76] fix: serialize messages without content

---
 vtelem/frame/message.py  | 3 ++-
 vtelem/message/framer.py | 1 -
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/frame/message.py b/vtelem/frame/message.py
index 75736e1..0ae74b4 100644
--- a/vtelem/frame/message.py
+++ b/vtelem/frame/message.py
@@ -102,4 +102,5 @@ def frames_required(
     """
 
     len_per_mtu = prototype.mtu - prototype.frame_overhead
-    return ceil(message_len / len_per_mtu), len_per_mtu
+    # a message without content still requires a frame
+    return max(1, ceil(message_len / len_per_mtu)), len_per_mtu
diff --git a/vtelem/message/framer.py b/vtelem/message/framer.py
index b0a4fbb..26e8bb0 100644
--- a/vtelem/message/framer.py
+++ b/vtelem/message/framer.py
@@ -68,7 +68,6 @@ class MessageFramer(Framer):
         frame_start = 0
         total_bytes = 0
         for idx in range(total_frames):
-            assert to_frame
             base_params["fragment_index"].set(idx)
             frame_size = min(to_frame, per_frame)
             frame.initialize(
-- 
2.43.0


From eedee93ca116e06a99a6e1e4fca14c81f976605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:36 +0000
Subject: [PATCH 25/76] fix: wrap message numbers and reject messages with too
 many fragments

---
 vtelem/frame/message.py  | 2 +-
 vtelem/message/framer.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/vtelem/frame/message.py b/vtelem/frame/message.py
index 0ae74b4..b633039 100644
--- a/vtelem/frame/message.py
+++ b/vtelem/frame/message.py
@@ -88,7 +88,7 @@ class MessageFrame(Frame):
         for field in MESSAGE_FIELDS:
             prim = TypePrimitive(field.type)
             if values is not None and field.name in values:
-                prim.set(values[field.name])
+                assert prim.set(values[field.name])
             result[field.name] = prim
         return result
 
diff --git a/vtelem/message/framer.py b/vtelem/message/framer.py
index 26e8bb0..09c1a0e 100644
--- a/vtelem/message/framer.py
+++ b/vtelem/message/framer.py
@@ -7,7 +7,9 @@ from json import JSONEncoder, dumps
 from typing import Dict, Sequence, Tuple, Type
 
 # internal
+from vtelem.classes import DEFAULTS
 from vtelem.classes.serdes import ObjectData, Serializable
+from vtelem.enums.primitive import get_size
 from vtelem.frame.framer import Framer
 from vtelem.frame.message import MessageFrame, frames_required
 from vtelem.types.frame import MessageType
@@ -63,6 +65,7 @@ class MessageFramer(Framer):
             }
         )
         self.message_numbers[message_type] += 1
+        self.message_numbers[message_type] %= 2 ** (get_size(DEFAULTS["id"]) * 8)
 
         frames = []
         frame_start = 0
-- 
2.43.0


From bc208e1795bb3b0c2d1bd3369ceb4fc42536020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:53 +0000
Subject: [PATCH 26/76] fix: only combine fragments when all are present

---
 vtelem/message/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index 2d1cc97..0b940f1 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -134,10 +134,10 @@ class MessageCache(DataCache, MessageDispatcher):
         """
 
         fragments = self.fragment_data[mtype.value].get(crc, {}).get(total, {})
+        if not all(i in fragments for i in range(total)):
+            return None
         data = bytearray()
         for i in range(total):
-            if i not in fragments:
-                return None
             data += fragments[i]
         return data if MessageFrame.messag_crc(data) == crc else None
 
-- 
2.43.0


From 8221932c23a655d7b31ffe235a08ed0fad5dd9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:53 +0000
Subject: [PATCH 27/76] fix: keep the message cache usable after cleaning it

---
 vtelem/message/cache.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index 0b940f1..b1369c5 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -5,6 +5,7 @@ vtelem - A module implementing a message storage.
 # built-in
 from contextlib import contextmanager
 import os
+import shutil
 from tempfile import TemporaryDirectory
 from typing import Callable, Dict, Iterator, List, Optional, Tuple
 
@@ -69,6 +70,11 @@ class MessageCache(DataCache, MessageDispatcher):
 
         self.fragment_data: dict = {}
         self.fragment_dir = cache_dir + "_fragments"
+        self.init_messages()
+        self.service_all_callbacks()
+
+    def init_messages(self) -> None:
+        """Initialize message storage, load stored fragments."""
 
         for mtype in MessageType:
             mtype_str = str(mtype.value)
@@ -77,7 +83,13 @@ class MessageCache(DataCache, MessageDispatcher):
             self.fragment_data[mtype.value] = {}
 
         self.load_fragments(self.fragment_dir)
-        self.service_all_callbacks()
+
+    def clean(self) -> None:
+        """Clean the cache contents, including fragments, from disk."""
+
+        super().clean()
+        shutil.rmtree(self.fragment_dir)
+        self.init_messages()
 
     def service_all_callbacks(self) -> None:
         """Invoke registered callbacks for all complete messages."""
-- 
2.43.0


From c85dade4a13f2692d09fecf273456d74b0b58cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:45 +0000
Subject: [PATCH 28/76] fix: reject malformed frames instead of raising while
 decoding

---
 vtelem/parsing/encapsulation.py | 21 ++++++++++++++++++++-
 vtelem/parsing/frames.py        |  6 +++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/vtelem/parsing/encapsulation.py b/vtelem/parsing/encapsulation.py
index 36d6c68..496a284 100644
--- a/vtelem/parsing/encapsulation.py
+++ b/vtelem/parsing/encapsulation.py
@@ -54,7 +54,22 @@ def decode_frame(
     size: int,
     expected_id: Optional[TypePrimitive] = None,
 ) -> Optional[ParsedFrame]:
-    """Unpack a frame from an array of bytes."""
+    """Unpack a frame from an array of bytes, None if it isn't valid."""
+
+    try:
+        return parse_frame(channel_registry, data, size, expected_id)
+    except (AssertionError, ValueError) as exc:
+        LOG.error("can't decode %d-byte frame: %r", size, exc)
+    return None
+
+
+def parse_frame(
+    channel_registry: ChannelRegistry,
+    data: bytes,
+    size: int,
+    expected_id: Optional[TypePrimitive] = None,
+) -> Optional[ParsedFrame]:
+    """Unpack a well-formed frame from an array of bytes."""
 
     buf = ByteBuffer(cast(bytearray, data), False, size)
     app_id, header = parse_frame_header(buf, expected_id)
@@ -69,6 +84,10 @@ def decode_frame(
     )
 
     footer = parse_frame_footer(buf)
+    if footer.crc is None and buf.remaining:
+        LOG.error("%d unexpected bytes at the end of a frame", buf.remaining)
+        return None
+
     if footer.crc is not None:
         buf.size = buf.get_pos()
         buf.size -= get_size(DEFAULTS["crc"])
diff --git a/vtelem/parsing/frames.py b/vtelem/parsing/frames.py
index a10acad..d9f8f46 100644
--- a/vtelem/parsing/frames.py
+++ b/vtelem/parsing/frames.py
@@ -37,7 +37,7 @@ def parse_data_frame(
     for _ in range(header.size):
         chan = {"id": buf.read(DEFAULTS["id"])}
         chan["channel"] = registry.get_item(chan["id"])
-        assert not chan["channel"].is_stream
+        assert chan["channel"] is not None and not chan["channel"].is_stream
         obj["channels"].append(chan)
 
     # read values
@@ -59,7 +59,7 @@ def parse_event_frame(
     for _ in range(header.size):
         event = {"id": buf.read(DEFAULTS["id"])}
         event["channel"] = registry.get_item(event["id"])
-        assert not event["channel"].is_stream
+        assert event["channel"] is not None and not event["channel"].is_stream
         obj["events"].append(event)
 
     # read events
@@ -93,7 +93,7 @@ def parse_stream_frame(
 
     obj = {"id": buf.read(DEFAULTS["id"])}
     obj["channel"] = registry.get_item(obj["id"])
-    assert obj["channel"].is_stream
+    assert obj["channel"] is not None and obj["channel"].is_stream
     obj["index"] = buf.read(DEFAULTS["count"])
     obj["data"] = buf.read_bytes(header.size * obj["channel"].size())
     return obj
-- 
2.43.0


From 1e6bff2fbd0190f1574b4968d0d8c59d4824043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:24 +0000
Subject: [PATCH 29/76] fix: end socket clients with one marker and recover on
 restart and bad datagrams

---
 vtelem/client/socket.py | 46 ++++++++++++++++++++++++++++-------------
 vtelem/client/tcp.py    |  1 +
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/vtelem/client/socket.py b/vtelem/client/socket.py
index c8cde27..da6cab8 100644
--- a/vtelem/client/socket.py
+++ b/vtelem/client/socket.py
@@ -6,7 +6,7 @@ vtelem - A daemon that provides decoded telemetry frames into a queue, from a
 # built-in
 import logging
 from queue import Queue
-from socket import SocketType, timeout
+from socket import SOCK_DGRAM, SocketType, timeout
 from typing import Callable
 
 # internal
@@ -14,6 +14,7 @@ from vtelem.channel.registry import ChannelRegistry
 from vtelem.classes.type_primitive import TypePrimitive, new_default
 from vtelem.client import TelemetryClient
 from vtelem.daemon import DaemonBase, DaemonState
+from vtelem.frame.processor import FrameProcessor
 from vtelem.mtu import DEFAULT_MTU
 from vtelem.telemetry.environment import TelemetryEnvironment
 
@@ -45,24 +46,23 @@ class SocketClient(DaemonBase, TelemetryClient):
         self.update_name(self.socket)
 
         def closer() -> None:
-            """
-            Close the socket and signal the output stream that the stream has
-            ended.
-            """
+            """Close the socket."""
 
             self.socket.close()
-            output_stream.put(None)
 
         self.function["close"] = closer
 
         def stop_server() -> None:
             """
-            Call provided stopper, then close the socket and signal frame
-            queue that frames are over.
+            Call provided stopper, the reader closes the socket and signals
+            the frame queue that frames are over when it ends.
             """
             LOG.info("%s: closing socket reader", self.name)
-            stopper()
-            self.close()
+            try:
+                stopper()
+            except OSError as exc:
+                # the peer (or the reader) may have already closed it
+                LOG.warning("%s: %s", self.name, exc)
 
         self.function["inject_stop"] = stop_server
 
@@ -78,6 +78,23 @@ class SocketClient(DaemonBase, TelemetryClient):
         self.function["close"]()
 
     def run(self, *_, **__) -> None:
+        """
+        Read from the listener until it ends, then close the socket and signal
+        the output stream that the stream has ended.
+        """
+
+        # Data from any previous connection can't be continued.
+        self.processor = FrameProcessor()
+
+        try:
+            self.read_frames()
+        except OSError as exc:
+            LOG.error("%s: %s", self.name, exc)
+        finally:
+            self.close()
+            self.frames.put(None)
+
+    def read_frames(self) -> None:
         """Read from the listener and enqueue decoded frames."""
 
         # If an 'init' function is provided, re-initialize the socket.
@@ -87,13 +104,17 @@ class SocketClient(DaemonBase, TelemetryClient):
 
         frame_size = new_default("count")
         assert self.env is not None
+        is_datagram = self.socket.type == SOCK_DGRAM
 
         while self.state != DaemonState.STOPPING:
             try:
                 raw_data = self.socket.recv(
                     self.mtu + frame_size.type.value.size
                 )
-                if not raw_data:
+                if is_datagram:
+                    # Frames never span multiple datagrams.
+                    self.processor = FrameProcessor()
+                elif not raw_data:
                     LOG.info("%s: stream ended", self.name)
                     break
                 self.handle_frames(
@@ -101,6 +122,3 @@ class SocketClient(DaemonBase, TelemetryClient):
                 )
             except timeout:
                 pass
-            except OSError as exc:
-                LOG.error("%s: %s", self.name, exc)
-                break
diff --git a/vtelem/client/tcp.py b/vtelem/client/tcp.py
index c587dbe..c951b31 100644
--- a/vtelem/client/tcp.py
+++ b/vtelem/client/tcp.py
@@ -57,6 +57,7 @@ class TcpClient(SocketClient):
             result = curr_sock
             if result.fileno() == -1:
                 result = socket.create_connection(host)
+                result.settimeout(0.1)
             return result
 
         self.function["init"] = connect
-- 
2.43.0


From cc76a87088008c50c153218420a5658636b1e5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:24 +0000
Subject: [PATCH 30/76] fix: only check a frame's size against the mtu when
 reading it

---
 vtelem/frame/processor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vtelem/frame/processor.py b/vtelem/frame/processor.py
index 8533cf7..aa254d0 100644
--- a/vtelem/frame/processor.py
+++ b/vtelem/frame/processor.py
@@ -34,10 +34,10 @@ class FrameProcessor:
             self.size = cast(int, frame_size.read(self.buffer, chomp=True))
             self.size_stale = False
 
-        # clear buffer state if we get an unreasonable value
-        if self.size > mtu:
-            self.buffer.reset()
-            self.size_stale = True
+            # clear buffer state if we get an unreasonable value
+            if self.size > mtu:
+                self.buffer.reset()
+                self.size_stale = True
 
     def process(
         self, data: bytes, frame_size: TypePrimitive, mtu: int
-- 
2.43.0


From 506001b402e2f91a122638281d029a51f9276c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:24 +0000
Subject: [PATCH 31/76] fix: send each frame to udp clients as one datagram

---
 vtelem/classes/udp_client_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index 4f84b73..a527785 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -70,7 +70,7 @@ class UdpClientManager(LockEntity):
 
         return {host: self.add_client(host) for host in hosts}
 
-    def add_client(self, host: Host, flush: bool = False) -> Tuple[int, int]:
+    def add_client(self, host: Host, flush: bool = True) -> Tuple[int, int]:
         """Add a new client connection by hostname and port."""
 
         sock = create_udp_socket(host)
-- 
2.43.0


From 086537d034b6a0a46e604e7a59f5b8b47205d471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:24 +0000
Subject: [PATCH 32/76] fix: resume reading a file at the end of the last
 consumed frame

---
 vtelem/client/file.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/vtelem/client/file.py b/vtelem/client/file.py
index 681735c..c4d8c20 100644
--- a/vtelem/client/file.py
+++ b/vtelem/client/file.py
@@ -16,6 +16,7 @@ from vtelem.channel.registry import ChannelRegistry
 from vtelem.classes.type_primitive import TypePrimitive, new_default
 from vtelem.client import TelemetryClient
 from vtelem.daemon import DaemonBase, DaemonState
+from vtelem.frame.processor import FrameProcessor
 from vtelem.mtu import DEFAULT_MTU
 from vtelem.stream.writer import StreamWriter
 from vtelem.telemetry.environment import TelemetryEnvironment
@@ -60,18 +61,12 @@ class FileClient(DaemonBase, TelemetryClient):
         (and export via queue) more frames than were requested.
         """
 
-        # Determine how many frames to process, we can either process them all
-        # or we want to truncate so we don't process more than was requested.
-        process_count = len(self.to_process)
-        if task.max_frames is not None:
-            process_count = min(
-                process_count, task.max_frames - self.frame_count
-            )
-
-        # Consume the desired number of payloads from our process list.
-        if process_count:
-            to_process = [self.to_process.pop(0) for _ in range(process_count)]
-            self.frame_count += self.handle_frames(to_process)
+        # Consume payloads from our process list until it's empty, or we've
+        # processed as many frames as were requested.
+        while self.to_process and (
+            task.max_frames is None or self.frame_count < task.max_frames
+        ):
+            self.frame_count += self.handle_frames([self.to_process.pop(0)])
 
         # Determine if we've reached the limit of desired frames, if one was
         # provided.
@@ -97,6 +92,10 @@ class FileClient(DaemonBase, TelemetryClient):
             frame_size = new_default("count")
             assert self.env is not None
 
+            # Anything previously read but not consumed is read again.
+            self.processor = FrameProcessor()
+            self.to_process.clear()
+
             while self.state != DaemonState.STOPPING:
                 try:
                     data = stream.read(self.mtu + frame_size.type.value.size)
@@ -117,9 +116,14 @@ class FileClient(DaemonBase, TelemetryClient):
                 finally:
                     pass
 
-            # Update the byte index.
+            # Update the byte index to the end of the last consumed frame.
+            unused = self.processor.buffer.remaining
+            if not self.processor.size_stale:
+                unused += frame_size.size()
+            for frame in self.to_process:
+                unused += frame_size.size() + len(frame)
             self.task = FileDecodeTask(
-                self.task.path, stream.tell(), self.task.max_frames
+                self.task.path, stream.tell() - unused, self.task.max_frames
             )
 
 
-- 
2.43.0


From 470e56882ec96e4b67718775e9f881c6980ef48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:33 +0000
Subject: [PATCH 33/76] fix: keep track of each run's worker when starting and
 stopping daemons

---
 vtelem/daemon/__init__.py | 55 ++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 9845023..bb078a6 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -298,17 +298,27 @@ class DaemonBase(TimeEntity):
             if self.state != DaemonState.IDLE:
                 return False
 
-            self.thread = threading.Thread(
+            thread = threading.Thread(
                 target=self.run_harness,
                 args=args,
                 kwargs=kwargs,
                 name=self.name,
             )
+            self.thread = thread
             self.reset_metric("count")
             self.increment_metric("starts")
             assert self.set_state(DaemonState.STARTING)
 
-        self.thread.start()
+        try:
+            thread.start()
+        except RuntimeError as exc:
+            LOG.error("%s: couldn't start worker: %s", self.name, exc)
+            with self.lock:
+                self.thread = None
+                self.increment_metric("errors")
+                assert self.set_state(DaemonState.IDLE)
+            return False
+
         return True
 
     @contextmanager
@@ -341,25 +351,23 @@ class DaemonBase(TimeEntity):
                     return True
         return False
 
-    def begin_stop(self) -> bool:
+    def begin_stop(self) -> Optional[threading.Thread]:
         """
         Determine if we're in the correct state to stop, mutate state if so.
+        Returns the worker that was requested to stop.
         """
 
         # make sure we're in the correct state to attempt a stop
-        should_stop = False
+        thread = None
         with self.lock:
-            if self.state == DaemonState.RUNNING:
+            if self.state in (DaemonState.RUNNING, DaemonState.PAUSED):
                 if self.set_state(DaemonState.STOPPING):
-                    should_stop = True
+                    thread = self.thread
 
-        if should_stop:
-            try:
-                self.function["inject_stop"]()
-            except KeyError:
-                pass
+        if thread is not None and "inject_stop" in self.function:
+            self.function["inject_stop"]()
 
-        return should_stop
+        return thread
 
     def restart(self, *args, **kwargs) -> bool:
         """Attempt to restart this daemon."""
@@ -371,16 +379,21 @@ class DaemonBase(TimeEntity):
     def stop(self, timeout: int = DEFAULT_TIMEOUT) -> bool:
         """Attempt to stop the daemon."""
 
-        if not self.begin_stop():
+        thread = self.begin_stop()
+        if thread is None:
             return False
 
-        # if we should stop, wait for the thread to be joined
-        assert self.thread is not None
-        self.thread.join(timeout=timeout)
+        # if we should stop, wait for the thread to be joined (unless the
+        # worker is requesting its own stop)
+        stopped = thread is threading.current_thread()
+        if not stopped:
+            thread.join(timeout=timeout)
+            stopped = not thread.is_alive()
+
         with self.lock:
-            self.thread = None
-            self.increment_metric(
-                "stops" if self.state == DaemonState.IDLE else "errors"
-            )
+            # the daemon may have been started again
+            if self.thread is thread:
+                self.thread = None
+            self.increment_metric("stops" if stopped else "errors")
 
-        return True
+        return stopped
-- 
2.43.0


From be738ad91dcf5c99412c6fb7a4d17e3551b239bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:33 +0000
Subject: [PATCH 34/76] fix: handle long and circular dependencies of daemons

---
 vtelem/daemon/manager.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/vtelem/daemon/manager.py b/vtelem/daemon/manager.py
index b8cfdb0..ae64aea 100644
--- a/vtelem/daemon/manager.py
+++ b/vtelem/daemon/manager.py
@@ -67,32 +67,28 @@ class DaemonManager(LockEntity):
         Execute an operation on daemons, respecting the dependency order.
         """
 
-        if not name_stack:
-            return
-
-        curr = name_stack.pop()
-        if curr not in executed:
-
-            # determine if we can execute yet
+        waiting: List[str] = []
+        while name_stack:
+            curr = name_stack.pop()
+            if curr in executed:
+                continue
+
+            # determine if we can execute yet, an entry that's waiting for us
+            # can't be executed before us
             to_execute: List[str] = []
-            curr_deps = self.depends_on.get(curr)
-            if curr_deps:
-                for dep in curr_deps:
-                    if dep not in executed:
-                        to_execute.append(dep)
+            for dep in self.depends_on.get(curr) or []:
+                if dep not in executed and dep not in waiting + [curr]:
+                    to_execute.append(dep)
 
             # if we have dependencies, put them in front of us, otherwise
             # run against the current entry
             if to_execute:
-                name_stack = to_execute + [curr] + name_stack
+                waiting.append(curr)
+                name_stack += [curr] + to_execute
             else:
                 results[curr] = self.perform(curr, operation, *args, **kwargs)
                 executed.append(curr)
 
-        self.perform_stack(
-            name_stack, executed, results, operation, *args, **kwargs
-        )
-
     def perform_all(self, operation: DaemonOperation, *args, **kwargs) -> bool:
         """Attempt to perform an action on all daemons."""
 
-- 
2.43.0


From 6dcdc1d2d5c12ec26402d60a66970c37826324f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:39 +0000
Subject: [PATCH 35/76] fix: notice a requested stop while sleeping for a long
 period

---
 vtelem/daemon/synchronous.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/vtelem/daemon/synchronous.py b/vtelem/daemon/synchronous.py
index 144d668..67d10a6 100644
--- a/vtelem/daemon/synchronous.py
+++ b/vtelem/daemon/synchronous.py
@@ -14,6 +14,9 @@ from vtelem.telemetry.environment import TelemetryEnvironment
 
 LOG = logging.getLogger(__name__)
 
+# wake up at least this often, so stopping doesn't depend on a task's rate
+MAX_SLEEP = 0.5
+
 
 class Daemon(DaemonBase):
     """
@@ -74,6 +77,14 @@ class Daemon(DaemonBase):
 
         return self.function["rate"]
 
+    def interval_sleep(self, amount: float) -> None:
+        """Sleep for an amount of time, unless stop is requested."""
+
+        while amount > 0.0 and self.state != DaemonState.STOPPING:
+            interval = min(amount, MAX_SLEEP)
+            self.function["sleep"](interval)
+            amount -= interval
+
     def run(self, *args, **kwargs) -> None:
         """Runs this daemon's thread, until stop is requested."""
 
@@ -87,7 +98,7 @@ class Daemon(DaemonBase):
 
             # just sleep while we're paused
             if self.state == DaemonState.PAUSED:
-                self.function["sleep"](rate)
+                self.interval_sleep(rate)
                 continue
 
             # run the iteration
@@ -104,7 +115,7 @@ class Daemon(DaemonBase):
             # await the next iteration
             sleep_amount = rate - (self.get_time() - iter_start)
             if sleep_amount > 0.0:
-                self.function["sleep"](sleep_amount)
+                self.interval_sleep(sleep_amount)
             elif self.function["overrun"] is not None:
                 self.increment_metric("overruns")
                 self.function["overrun"](
-- 
2.43.0


From 8015e5e261a63a63986c5f22caf586dc3b70469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:58 +0000
Subject: [PATCH 36/76] fix: measure the time keeper's iterations with the
 underlying time

---
 vtelem/classes/time_keeper.py |  8 ++++++++
 vtelem/daemon/synchronous.py  | 11 ++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/time_keeper.py b/vtelem/classes/time_keeper.py
index 373b521..bb26e9b 100644
--- a/vtelem/classes/time_keeper.py
+++ b/vtelem/classes/time_keeper.py
@@ -41,6 +41,14 @@ class TimeKeeper(Daemon):
         self.function["sleep"] = self.sleep_function
         self.slaves: List[Any] = []
 
+    def iteration_time(self) -> float:
+        """
+        Measure iterations with the underlying time, because each iteration
+        advances our time by what elapsed since the previous one.
+        """
+
+        return self.time_function()
+
     def iteration(self, *_, **__) -> None:
         """On every iteration, advance time for all slaves."""
 
diff --git a/vtelem/daemon/synchronous.py b/vtelem/daemon/synchronous.py
index 67d10a6..07d558d 100644
--- a/vtelem/daemon/synchronous.py
+++ b/vtelem/daemon/synchronous.py
@@ -77,6 +77,11 @@ class Daemon(DaemonBase):
 
         return self.function["rate"]
 
+    def iteration_time(self) -> float:
+        """Get the time that iterations are measured with."""
+
+        return self.get_time()
+
     def interval_sleep(self, amount: float) -> None:
         """Sleep for an amount of time, unless stop is requested."""
 
@@ -102,9 +107,9 @@ class Daemon(DaemonBase):
                 continue
 
             # run the iteration
-            iter_start = self.get_time()
+            iter_start = self.iteration_time()
             self.function["task"](*args, **kwargs)
-            iter_end = self.get_time()
+            iter_end = self.iteration_time()
 
             # keep runtime metrics
             self.increment_metric("uptime", iter_end - iter_start)
@@ -113,7 +118,7 @@ class Daemon(DaemonBase):
             )
 
             # await the next iteration
-            sleep_amount = rate - (self.get_time() - iter_start)
+            sleep_amount = rate - (self.iteration_time() - iter_start)
             if sleep_amount > 0.0:
                 self.interval_sleep(sleep_amount)
             elif self.function["overrun"] is not None:
-- 
2.43.0


From 5c340a42bdbe1248e009b59b618504171daec5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:12 +0000
Subject: [PATCH 37/76] fix: don't hold the environment's lock while the frame
 queue is full

---
 vtelem/channel/environment.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 9fb2485..6a6651f 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -5,6 +5,8 @@ vtelem - Exposes a runtime environment for managing sets of channels.
 # built-in
 from collections import defaultdict
 import logging
+from queue import Queue
+from threading import RLock
 from typing import Any, Dict, List, Optional, Tuple
 
 # internal
@@ -62,6 +64,7 @@ class ChannelEnvironment(TimeEntity):
         if metrics_rate is not None:
             self.register_base_metrics(metrics_rate)
         self.frame_queue: MeteredQueue = MeteredQueue("frame", self)
+        self.dispatch_lock = RLock()
         self.log_data: dict = defaultdict(lambda: 0.0)
 
     @property
@@ -220,10 +223,16 @@ class ChannelEnvironment(TimeEntity):
     def dispatch(self, time: float, should_log: bool = True) -> int:
         """Dispatch events and channel emissions."""
 
-        with self.lock:
-            data = self.dispatch_data(time)
-            events = self.dispatch_events(time)
-            self.metric_add("dispatch_count", 1)
+        with self.dispatch_lock:
+            frames: Queue = Queue()
+            with self.lock:
+                data = self.dispatch_data(time, frames)
+                events = self.dispatch_events(time, frames)
+                self.metric_add("dispatch_count", 1)
+
+            # only this thread should wait while the frame queue is full
+            while not frames.empty():
+                self.frame_queue.put(frames.get())
 
         total = data[0] + events[0]
 
@@ -262,21 +271,27 @@ class ChannelEnvironment(TimeEntity):
 
         return decode_frame(self.channel_registry, data, size, expected_id)
 
-    def dispatch_events(self, time: float) -> Tuple[int, int]:
+    def dispatch_events(
+        self, time: float, queue: Queue = None
+    ) -> Tuple[int, int]:
         """Process all queued events (build frames)."""
 
+        if queue is None:
+            queue = self.frame_queue
         result = self.framer.build_event_frames(
-            time, self.event_queue, self.frame_queue, self.write_crc
+            time, self.event_queue, queue, self.write_crc
         )
         self.metric_add("events_captured", result[1], time)
         return result
 
-    def dispatch_data(self, time: float) -> Tuple[int, int]:
+    def dispatch_data(
+        self, time: float, queue: Queue = None
+    ) -> Tuple[int, int]:
         """Process all channel emissions for the specified, absolute time."""
 
-        result = self.framer.build_data_frames(
-            time, self.frame_queue, self.write_crc
-        )
+        if queue is None:
+            queue = self.frame_queue
+        result = self.framer.build_data_frames(time, queue, self.write_crc)
         self.metric_add("emits_captured", result[1], time)
         return result
 
-- 
2.43.0


From 995bc083ff20dee62c0b2303aa7ee9c5ec830884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:53 +0000
Subject: [PATCH 38/76] fix: export enums without side effects of a failure or
 a concurrent registration

---
 vtelem/registry/enum.py         | 6 ++++--
 vtelem/telemetry/environment.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/vtelem/registry/enum.py b/vtelem/registry/enum.py
index 4f31e73..b44e072 100644
--- a/vtelem/registry/enum.py
+++ b/vtelem/registry/enum.py
@@ -70,13 +70,15 @@ class EnumRegistry(Registry[UserEnum]):
         this mapping.
         """
 
-        with self.lock:
+        with self.lock, registry.lock:
             for enum_id, enum_data in self.data["enums"].items():
 
                 # determine if this enum has already been registered
                 curr_id = registry.get_id(enum_data.name)
                 if curr_id is not None:
-                    expected_id = self.data["global_mappings"][curr_id]
+                    expected_id = self.data["global_mappings"].get(
+                        curr_id, -1
+                    )
                     if expected_id != enum_id:
                         log_str = (
                             "couldn't register '%s', type has value "
diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index cca3145..8b32b8a 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -201,7 +201,7 @@ class TelemetryEnvironment(ChannelEnvironment):
     def add_enum(self, enum: UserEnum) -> int:
         """Add a user enumeration to this environment's management."""
 
-        with self.lock:
+        with self.lock, self.type_registry.lock:
             if self.has_enum(enum):
                 return self.enum_registry.get_enum(enum)[1]
 
-- 
2.43.0


From 093d6f8f0893b9549952971f0228c694a90392e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:53 +0000
Subject: [PATCH 39/76] fix: reject duplicate enums and describe the enum
 registry consistently

---
 vtelem/registry/enum_retry.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vtelem/registry/enum_retry.py b/vtelem/registry/enum_retry.py
index 42e0f13..81e2af3 100644
--- a/vtelem/registry/enum_retry.py
+++ b/vtelem/registry/enum_retry.py
@@ -4,7 +4,7 @@ vtelem - A module providing assets for managing enumerations at runtime.
 
 # built-in
 from enum import IntEnum
-from typing import Dict, Type, cast
+from typing import Dict, TextIO, Type, cast
 
 # internal
 from vtelem.classes.serdes import ObjectData, ObjectMap, Serializable, max_key
@@ -47,6 +47,12 @@ class EnumRegistry(Serializable, LockEntity):
         enums = cast(Dict[str, ObjectData], self.data["enums"])
         return enums
 
+    def json(self, stream: TextIO, indent: int = None, **dump_kwargs) -> None:
+        """Encode this registry, while nothing is being added to it."""
+
+        with self.lock:
+            super().json(stream, indent, **dump_kwargs)
+
     def get_enum(self, enum_id: int) -> UserEnum:
         """Get a user enum by its integer identifier."""
 
@@ -58,8 +64,9 @@ class EnumRegistry(Serializable, LockEntity):
     def add(self, enum: UserEnum) -> int:
         """Add an enum to the registry."""
 
-        assert enum.name not in self.data
         with self.lock:
+            assert enum.name not in self.enums
+
             # Store a reference to the serializable data directly.
             self.enum_data[enum.name] = enum.data
 
-- 
2.43.0


From 14628607be4fda295251a4b8fb418d29eacb02ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:53 +0000
Subject: [PATCH 40/76] fix: describe registered channel groups

---
 vtelem/channel/group_registry.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/vtelem/channel/group_registry.py b/vtelem/channel/group_registry.py
index f0208a8..786344e 100644
--- a/vtelem/channel/group_registry.py
+++ b/vtelem/channel/group_registry.py
@@ -4,6 +4,7 @@ vtelem - Allows channel groups to be managed by a single entity.
 
 # built-in
 from contextlib import contextmanager
+from json import JSONEncoder
 from typing import Any, Dict, Iterator
 
 # internal
@@ -13,6 +14,17 @@ from vtelem.registry import Registry
 from vtelem.telemetry.environment import TelemetryEnvironment
 
 
+class ChannelGroupEncoder(JSONEncoder):
+    """A JSON encoder for a channel group."""
+
+    def default(self, o) -> dict:
+        """Implement serialization for a channel group."""
+
+        assert isinstance(o, ChannelGroup)
+        with o.env.lock:
+            return {name: chan["id"] for name, chan in o.channels.items()}
+
+
 class ChannelGroupRegistry(Registry[ChannelGroup]):
     """A class for managing an arbitrary number of channel groups."""
 
@@ -22,6 +34,11 @@ class ChannelGroupRegistry(Registry[ChannelGroup]):
         super().__init__("channel_groups")
         self.env = env
 
+    def describe(self, indented: bool = False) -> str:
+        """Obtain a JSON String of the group registry's current state."""
+
+        return self.describe_raw(indented, ChannelGroupEncoder)
+
     def create_group(self, name: str) -> int:
         """Add a new, named channel group."""
 
-- 
2.43.0


From 345882fb40220a7d00de2115128a067d2878659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:56 +0000
Subject: [PATCH 41/76] fix: don't lose metrics of a state that several
 machines use

---
 vtelem/classes/state.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/state.py b/vtelem/classes/state.py
index 6b8ed39..2b03950 100644
--- a/vtelem/classes/state.py
+++ b/vtelem/classes/state.py
@@ -68,7 +68,7 @@ class State:
 
         # increment metrics
         if self.metrics is not None:
-            with self.metrics.data() as metrics_data:
+            with self.metrics.env.lock, self.metrics.data() as metrics_data:
                 metrics_data["enter_attempts"] += 1
                 metrics_data["enter_successes"] += int(result)
 
@@ -83,7 +83,7 @@ class State:
 
         # increment metrics
         if self.metrics is not None:
-            with self.metrics.data() as metrics_data:
+            with self.metrics.env.lock, self.metrics.data() as metrics_data:
                 metrics_data["iterations"] += 1
 
         return result
@@ -102,7 +102,7 @@ class State:
 
         # increment metrics
         if self.metrics is not None:
-            with self.metrics.data() as metrics_data:
+            with self.metrics.env.lock, self.metrics.data() as metrics_data:
                 metrics_data["exit_attempts"] += 1
                 metrics_data["exit_successes"] += int(result)
 
-- 
2.43.0


From 8945a40121aeae0633b6a4ccb77e12301b82c066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:48 +0000
Subject: [PATCH 42/76] fix: keep servicing commands when a result callback
 fails

---
 vtelem/daemon/command_queue.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index 47dd63c..fdbb3fd 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -47,6 +47,18 @@ class CommandQueueDaemon(QueueDaemon):
             elem = data[0]
             cmd_cb = data[1]
 
+            def notify(
+                callback: Optional[ResultCbType], status: bool, message: str
+            ) -> None:
+                """Report a result, if something is interested in it."""
+
+                try:
+                    if callback is not None:
+                        callback(status, message)
+                except Exception:  # pylint:disable=broad-except
+                    # the command was already handled
+                    LOG.exception("%s: result callback failed", self.name)
+
             # make sure the element is a dictionary, has "command", has a
             # handler registered
             if not isinstance(elem, dict) or not isinstance(
@@ -55,8 +67,7 @@ class CommandQueueDaemon(QueueDaemon):
                 err = f"{self.name}: unknown or malformed command, rejected"
                 LOG.error(err)
                 self.increment_metric("rejected_count")
-                if cmd_cb is not None:
-                    cmd_cb(False, err)
+                notify(cmd_cb, False, err)
                 return None
             if not self.handlers.get(elem["command"]):
                 err = (
@@ -65,8 +76,7 @@ class CommandQueueDaemon(QueueDaemon):
                 )
                 LOG.error(err)
                 self.increment_metric("rejected_count")
-                if cmd_cb is not None:
-                    cmd_cb(False, err)
+                notify(cmd_cb, False, err)
                 return None
 
             # provide data as a defaultdict no matter what
@@ -85,10 +95,8 @@ class CommandQueueDaemon(QueueDaemon):
                     LOG.exception("%s: command handler failed", self.name)
                     result = False
                     message = f"handler failed: {type(exc).__name__}: {exc}"
-                if result_cb is not None:
-                    result_cb(result, message)
-                if cmd_cb is not None:
-                    cmd_cb(result, message)
+                notify(result_cb, result, message)
+                notify(cmd_cb, result, message)
                 status = "success" if result else "failure"
                 self.increment_metric(f"{status}_count")
 
-- 
2.43.0


From 0176a6897ad964aeaf004aa92807cb4b1b67633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:48 +0000
Subject: [PATCH 43/76] fix: keep servicing commands when their data isn't
 JSON-encodable

---
 vtelem/daemon/command_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index fdbb3fd..bb52bea 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -106,7 +106,7 @@ class CommandQueueDaemon(QueueDaemon):
                     "%s: command '%s' '%s' %s, '%s'",
                     self.name,
                     elem["command"],
-                    json.dumps(cmd_data, default=str),
+                    dict(cmd_data),
                     status,
                     message,
                 )
-- 
2.43.0


From 9d01fa803c5a9841c946e139d2205ff5911e0617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:48 +0000
Subject: [PATCH 44/76] fix: don't fail the help command while a consumer gets
 registered

---
 vtelem/daemon/command_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index bb52bea..1d62441 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -125,7 +125,7 @@ class CommandQueueDaemon(QueueDaemon):
 
             cmd_help: Dict[str, List[str]] = {}
             commands = []
-            for key, handler in self.handlers.items():
+            for key, handler in list(self.handlers.items()):
                 if handler:
                     commands.append(key)
             if data["command"] is not None:
-- 
2.43.0


From 8c3b6bfceafaa1d86544d5613b4137658c62e0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:48 +0000
Subject: [PATCH 45/76] fix: don't mix up the results of handlers or wait
 forever in execute

---
 vtelem/daemon/command_queue.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index 1d62441..dbdcc39 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -7,7 +7,7 @@ vtelem - A module that helps aggregate command-consuming entities and dispatch
 from collections import defaultdict
 import json
 import logging
-from threading import Semaphore
+from queue import Empty, Full, Queue
 from typing import Any, Dict, List, Optional, Tuple
 
 # internal
@@ -22,6 +22,7 @@ from vtelem.types.command_queue_daemon import (
 )
 
 LOG = logging.getLogger(__name__)
+EXECUTE_TIMEOUT = 2
 
 
 class CommandQueueDaemon(QueueDaemon):
@@ -167,18 +168,15 @@ class CommandQueueDaemon(QueueDaemon):
     def execute(self, command: Any) -> Tuple[bool, str]:
         """Execute a command and block until it's complete."""
 
-        result, msg = False, "Command result not known."
-        signal = Semaphore(0)
+        results: Queue = Queue()
 
         def cmd_cb(status: bool, message: str) -> None:
-            """Update the result when we get it."""
+            """Provide the result when we get it."""
 
-            nonlocal result
-            nonlocal msg
-            result = status
-            msg = message
-            signal.release()
+            results.put((status, message))
 
-        self.enqueue(command, cmd_cb)
-        in_time = signal.acquire(True, 2)  # pylint:disable=consider-using-with
-        return result and in_time, msg
+        try:
+            self.queue.put((command, cmd_cb), timeout=EXECUTE_TIMEOUT)
+            return results.get(timeout=EXECUTE_TIMEOUT)
+        except (Empty, Full):
+            return False, "Command result not known."
-- 
2.43.0


From e8cb6503b8d29d75536439eddf2c98a02fb5fc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:12 +0000
Subject: [PATCH 46/76] fix: let a queue daemon stop itself while its queue is
 full

---
 vtelem/daemon/queue.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/vtelem/daemon/queue.py b/vtelem/daemon/queue.py
index 0ead3c1..1ae8a27 100644
--- a/vtelem/daemon/queue.py
+++ b/vtelem/daemon/queue.py
@@ -4,7 +4,8 @@ vtelem - Uses daemon machinery to make servicing queues in threads simple.
 
 # built-in
 from queue import Queue
-from typing import Any, Callable
+import threading
+from typing import Any, Callable, Optional
 
 # internal
 from vtelem.daemon import DaemonBase
@@ -27,10 +28,17 @@ class QueueDaemon(DaemonBase):
         super().__init__(name, env, time_keeper)
         self.queue = input_stream
         self.handle = elem_handle
+        self.pending: Optional[int] = None
 
         def stop_injector() -> None:
-            """Put a None into the queue as the signal for stopping."""
-            self.queue.put(None)
+            """
+            Put a None into the queue as the signal for stopping. The worker
+            can't wait for space in its own queue, so it counts instead.
+            """
+            if threading.current_thread() is self.thread:
+                self.pending = self.queue.qsize()
+            else:
+                self.queue.put(None)
 
         self.function["inject_stop"] = stop_injector
 
@@ -43,9 +51,14 @@ class QueueDaemon(DaemonBase):
     def run(self, *_, **__) -> None:
         """Continue servicing the queue until None is de-queued."""
 
+        self.pending = None
         elem = self.queue.get()
         while elem is not None:
             self.handle(elem)
             self.queue.task_done()
+            if self.pending is not None:
+                if self.pending == 0:
+                    return
+                self.pending -= 1
             elem = self.queue.get()
         self.queue.task_done()
-- 
2.43.0


From 5aa2ea2d053f01051ea1e1238e105af358c7c202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:39 +0000
Subject: [PATCH 47/76] fix: stop event loops from their own thread, close
 websocket servers when stopped

Tasks were cancelled from another thread, the number of tasks waited for could
be wrong (so that stop hung or asserted), a failed connection wasn't handled
and a stopped websocket daemon kept its socket open.
---
 vtelem/client/websocket.py  | 10 +++--
 vtelem/daemon/event_loop.py | 82 +++++++++++++++++--------------------
 vtelem/daemon/websocket.py  | 67 +++++++++++++++---------------
 3 files changed, 80 insertions(+), 79 deletions(-)

diff --git a/vtelem/client/websocket.py b/vtelem/client/websocket.py
index 277f30e..a4e5e2e 100644
--- a/vtelem/client/websocket.py
+++ b/vtelem/client/websocket.py
@@ -4,6 +4,7 @@ vtelem - A daemon that provides decoded telemetry frames into a queue, from a
 """
 
 # built-in
+import asyncio
 from asyncio import Task, ensure_future
 import logging
 from queue import Queue
@@ -74,15 +75,18 @@ class WebsocketClient(EventLoopDaemon, TelemetryClient):
             uri = f"{uri_prefix}{host.address}:{host.port}{uri_path}"
             LOG.info("Connecting to '%s'.", uri)
             try:
-                with self.lock:
-                    self.wait_count += 1
                 self.connected = True
                 async with websockets.connect(  # type: ignore
                     uri, close_timeout=1
                 ) as websocket:
                     await connection_handle(websocket, uri_path)
+            except (
+                OSError,
+                asyncio.TimeoutError,
+                websockets.exceptions.WebSocketException,
+            ) as exc:
+                LOG.error("Exception while connecting: %s.", exc)
             finally:
-                self.wait_poster.release()
                 self.connected = False
 
         def run_init(*_, **__) -> None:
diff --git a/vtelem/daemon/event_loop.py b/vtelem/daemon/event_loop.py
index f30a568..8f6a428 100644
--- a/vtelem/daemon/event_loop.py
+++ b/vtelem/daemon/event_loop.py
@@ -4,11 +4,11 @@ vtelem - A module for using event loops as daemons.
 
 # built-in
 import asyncio
-from threading import Semaphore
+import threading
 from typing import Any
 
 # internal
-from vtelem.daemon import DaemonBase
+from vtelem.daemon import DaemonBase, DaemonState
 from vtelem.telemetry.environment import TelemetryEnvironment
 
 
@@ -26,61 +26,55 @@ class EventLoopDaemon(DaemonBase):
 
         super().__init__(name, env, time_keeper)
         self.eloop = asyncio.new_event_loop()
-        self.wait_count = 0
-        self.wait_poster = Semaphore(0)
+        self.stop_grace = stop_grace
+        self.serving_forever = False
 
         def event_loop_stopper() -> None:
             """
             A function for stopping the event loop from an arbitrary thread.
             """
 
-            # determine how many tasks have expressed pending status
-            with self.lock:
-                waits = self.wait_count
-
-            # signal active tasks to cancel
-            tasks = asyncio.all_tasks(loop=self.eloop)
-            for task in tasks:
-                task.cancel()
+            thread: Any = self.thread
+            self.eloop.call_soon_threadsafe(self.handle_stop)
 
             # allow 'stop_grace' amount of time to pass while we wait for tasks
-            # to complete, after this we'll stop the event loop and wait for
-            # all managed tasks we expect to 'post' the semaphore
-            start = self.function["time"]()
-            running = True
-            while running and self.function["time"]() - start < stop_grace:
-                running = False
-                tasks = asyncio.all_tasks(loop=self.eloop)
-                for task in tasks:
-                    if not task.done():
-                        running = True
-                        break
-
-            # schedule event-loop shutdown, if we leave un-finished work behind
-            # it's better than hanging
-            self.eloop.call_soon_threadsafe(self.eloop.stop)
-
-            # decrement the semaphore the required number of times
-            waited = 0
-            for _ in range(waits):
-                sig = self.wait_poster
-                # pylint:disable=consider-using-with
-                if sig.acquire(True, stop_grace):
-                    waited += 1
-                # pylint:enable=consider-using-with
-
-            assert waited == waits
-            with self.lock:
-                self.wait_count -= waits
+            # to complete, if we leave un-finished work behind it's better than
+            # hanging
+            if thread not in (None, threading.current_thread()):
+                thread.join(timeout=self.stop_grace)
 
         self.function["inject_stop"] = event_loop_stopper
 
+    def handle_stop(self) -> None:
+        """Stop serving, tasks can only be interacted with from the loop."""
+
+        if self.serving_forever and self.state == DaemonState.STOPPING:
+            self.eloop.stop()
+
+    async def finish(self) -> None:
+        """Cancel the loop's tasks, and allow them some time to complete."""
+
+        if "run_exit" in self.function:
+            await self.function["run_exit"]()
+
+        end = self.eloop.time() + self.stop_grace / 2
+        tasks = asyncio.all_tasks() - {asyncio.current_task()}
+        while tasks and self.eloop.time() < end:
+            for task in tasks:
+                task.cancel()
+            await asyncio.wait(tasks, timeout=end - self.eloop.time())
+            tasks = asyncio.all_tasks() - {asyncio.current_task()}
+
     def run(self, *args, **kwargs) -> None:
         """Runs this daemon's thread, until stop is requested."""
 
         asyncio.set_event_loop(self.eloop)
         try:
-            self.function["run_init"](*args, **kwargs)
-        except KeyError:
-            pass
-        self.eloop.run_forever()
+            if "run_init" in self.function:
+                self.function["run_init"](*args, **kwargs)
+            self.serving_forever = True
+            if self.state != DaemonState.STOPPING:
+                self.eloop.run_forever()
+        finally:
+            self.serving_forever = False
+            self.eloop.run_until_complete(self.finish())
diff --git a/vtelem/daemon/websocket.py b/vtelem/daemon/websocket.py
index a0c29ce..31a9578 100644
--- a/vtelem/daemon/websocket.py
+++ b/vtelem/daemon/websocket.py
@@ -55,21 +55,17 @@ class WebsocketDaemon(EventLoopDaemon):
             address = Host(port=get_free_tcp_port())
         self.address = address
         self.secure = secure
-        self.server = None
-        self.serving = False
+        self.server: Any = None
 
         if ws_handler is None:
             assert message_consumer is not None
             ws_handler = create_default_handler(message_consumer)
 
         async def handler(websocket, path) -> None:
-            with self.lock:
-                self.wait_count += 1
-
+            # these aren't available if the client already disconnected
             laddr = websocket.local_address
             raddr = websocket.remote_address
-            fstr = "connection ('%s') opened '%s:%d' -> '%s:%d'"
-            LOG.info(fstr, path, laddr[0], laddr[1], raddr[0], raddr[1])
+            LOG.info("connection ('%s') opened '%s' -> '%s'", path, laddr, raddr)
 
             try:
                 assert ws_handler is not None
@@ -81,12 +77,7 @@ class WebsocketDaemon(EventLoopDaemon):
             ):
                 pass
             finally:
-                LOG.warning(
-                    "closing client connection '%s:%d'", raddr[0], raddr[1]
-                )
-                # post first, if we never finish closing the connection that's
-                # okay
-                self.wait_poster.release()
+                LOG.warning("closing client connection '%s'", raddr)
                 await websocket.close()
 
         def run_init(
@@ -100,25 +91,37 @@ class WebsocketDaemon(EventLoopDaemon):
             event loop is established.
             """
 
+            async def routine() -> None:
+                """Capture the server object once we begint serving."""
+
+                self.server = await websockets.serve(  # type: ignore
+                    handler,
+                    self.address[0],
+                    self.address[1],
+                    close_timeout=1,
+                )
+                if first_start and service_registry is not None:
+                    socks = self.server.sockets
+                    if socks:
+                        addrs = [sock.getsockname() for sock in socks]
+                        service_registry.add(self.name, addrs)
+
             # start serving traffic
-            if not self.serving:
-
-                async def routine() -> None:
-                    """Capture the server object once we begint serving."""
-
-                    self.server = await websockets.serve(  # type: ignore
-                        handler,
-                        self.address[0],
-                        self.address[1],
-                        close_timeout=1,
-                    )
-                    if first_start and service_registry is not None:
-                        socks = self.server.sockets
-                        if socks:
-                            addrs = [sock.getsockname() for sock in socks]
-                            service_registry.add(self.name, addrs)
-
-                self.eloop.run_until_complete(routine())
-                self.serving = True
+            self.eloop.run_until_complete(routine())
+
+        async def run_exit() -> None:
+            """Stop serving traffic and close active connections."""
+
+            server, self.server = self.server, None
+            if server is not None:
+                server.close()
+                await asyncio.wait(
+                    [asyncio.ensure_future(server.wait_closed())], timeout=1
+                )
+
+                # don't wait for clients that aren't responsive
+                for websocket in list(server.websockets):
+                    websocket.transport.abort()
 
         self.function["run_init"] = run_init
+        self.function["run_exit"] = run_exit
-- 
2.43.0


From 00fc53660123706949d42717b44510694943d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:39 +0000
Subject: [PATCH 48/76] fix: don't block the event loop while a websocket
 client waits for telemetry

Serving a client blocked every other one, disconnected idle clients, and
leaked the queue of clients that were gone.
---
 vtelem/daemon/websocket_telemetry.py | 43 ++++++++++++++++++----------
 vtelem/stream/writer.py              | 13 +++++++--
 2 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/vtelem/daemon/websocket_telemetry.py b/vtelem/daemon/websocket_telemetry.py
index d2f068e..d54449f 100644
--- a/vtelem/daemon/websocket_telemetry.py
+++ b/vtelem/daemon/websocket_telemetry.py
@@ -3,21 +3,26 @@ vtelem - An interface for managing websocket servers that serve telemetry data.
 """
 
 # built-in
-from queue import Queue
-from typing import Any, Optional, Tuple
+import asyncio
+from queue import Empty, Queue
+from typing import Any, Tuple
 
 # third-party
 from websockets.exceptions import WebSocketException
 
 # internal
+from vtelem import DEFAULT_TIMEOUT
+from vtelem.classes.metered_queue import MAX_SIZE
 from vtelem.client.websocket import WebsocketClient
 from vtelem.daemon.websocket import WebsocketDaemon
-from vtelem.frame.channel import ChannelFrame
 from vtelem.mtu import DEFAULT_MTU, Host
-from vtelem.stream import queue_get
+from vtelem.stream import queue_get  # noqa: F401 pylint:disable=unused-import
 from vtelem.stream.writer import QueueClientManager, StreamWriter
 from vtelem.telemetry.environment import TelemetryEnvironment
 
+POLL_INTERVAL = 0.01
+MAX_BACKLOG = 16 * MAX_SIZE
+
 
 class WebsocketTelemetryDaemon(QueueClientManager, WebsocketDaemon):
     """A class for creating telemetry-serving websocket servers."""
@@ -39,24 +44,32 @@ class WebsocketTelemetryDaemon(QueueClientManager, WebsocketDaemon):
             Write telemetry to this connection, for as long as it's connected.
             """
 
+            address = websocket.remote_address
             queue_id, frame_queue = self.add_client_queue(
-                Host(*websocket.remote_address)
+                None if address is None else Host(*address[:2]), 0
             )
-            should_continue = True
 
             try:
-                while should_continue:
+                while websocket.open:
                     try:
-                        frame: Optional[ChannelFrame] = queue_get(frame_queue)
-                        if frame is None:
-                            should_continue = False
-                            break
+                        # don't block other users of the event loop
+                        frame = frame_queue.get_nowait()
+                    except Empty:
+                        await asyncio.sleep(POLL_INTERVAL)
+                        continue
 
-                        await websocket.send(frame.with_size_header()[0])
-                    except WebSocketException:
-                        should_continue = False
+                    # end the connection if we're requested to, or if the
+                    # client is too slow
+                    if frame is None or frame_queue.qsize() > MAX_BACKLOG:
+                        break
+                    await asyncio.wait_for(
+                        websocket.send(frame.with_size_header()[0]),
+                        DEFAULT_TIMEOUT,
+                    )
+            except (asyncio.TimeoutError, WebSocketException):
+                pass
             finally:
-                self.writer.remove_queue(queue_id, False)
+                self.remove_client_queue(queue_id)
 
         WebsocketDaemon.__init__(
             self, name, None, address, env, time_keeper, telem_handle
diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index f99804a..3b26252 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -265,17 +265,26 @@ class QueueClientManager(LockEntity):
         self.writer = writer
         self.active_client_queues: List[int] = []
 
-    def add_client_queue(self, addr: Host = None) -> Tuple[int, Queue]:
+    def add_client_queue(
+        self, addr: Host = None, maxsize: int = MAX_SIZE
+    ) -> Tuple[int, Queue]:
         """Register a new frame queue for a connected client."""
 
         name = None
         if addr is not None:
             name = f"{self.name}.{addr.address}:{addr.port}"
-        queue_id, frame_queue = self.writer.registered_queue(name)
+        queue_id, frame_queue = self.writer.registered_queue(name, maxsize)
         with self.lock:
             self.active_client_queues.append(queue_id)
         return queue_id, frame_queue
 
+    def remove_client_queue(self, queue_id: int) -> None:
+        """Un-register a disconnected client's queue."""
+
+        with self.lock:
+            self.active_client_queues.remove(queue_id)
+        self.writer.remove_queue(queue_id, False)
+
     def close_clients(self) -> int:
         """
         Attempt to remove all active client-writing queues from the stream
-- 
2.43.0


From 7c4acf22d7ef05597cc9aa74fec4d7e817e63a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:39 +0000
Subject: [PATCH 49/76] fix: don't block the event loop while executing a
 websocket command

Also reply to every message that isn't valid, rather than only some of them.
---
 vtelem/factories/websocket_daemon.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vtelem/factories/websocket_daemon.py b/vtelem/factories/websocket_daemon.py
index eb4a289..af4c562 100644
--- a/vtelem/factories/websocket_daemon.py
+++ b/vtelem/factories/websocket_daemon.py
@@ -3,6 +3,7 @@ vtelem - A module for creating different types of websocket daemons.
 """
 
 # built-in
+import asyncio
 import json
 
 # internal
@@ -34,11 +35,16 @@ def commandable_websocket_daemon(
 
         # build command, result callback
         try:
-            cmd_result = daemon.execute(json.loads(message))
+            command = json.loads(message)
+        except (ValueError, RecursionError) as exc:
+            result["message"] = str(exc)
+        else:
+            # don't block other users of the event loop
+            cmd_result = await asyncio.get_event_loop().run_in_executor(
+                None, daemon.execute, command
+            )
             result["success"] = cmd_result[0]
             result["message"] = cmd_result[1]
-        except json.decoder.JSONDecodeError as exc:
-            result["message"] = str(exc)
 
         await websocket.send(json.dumps(result))
 
-- 
2.43.0


From 486f3f26ce2394ee5ac944e1e0c790ea6fa349f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:58 +0000
Subject: [PATCH 50/76] fix: keep udp clients while nothing listens at their
 destination

Frames are sent as soon as they're written, and the probe that measures the mtu
(or an earlier frame) may have been refused, which isn't an error of the
client.
---
 vtelem/classes/udp_client_manager.py | 35 +++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index a527785..b7db0f5 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -5,7 +5,7 @@ vtelem - An interface for setting up and tearing down outgoing udp streams.
 # built-in
 import logging
 import socket
-from typing import Any, Dict, List, Tuple, cast
+from typing import Any, Dict, List, Tuple
 
 # internal
 from vtelem.mtu import Host, create_udp_socket, discover_mtu
@@ -14,6 +14,36 @@ from vtelem.stream.writer import StreamWriter
 from .time_entity import LockEntity
 
 LOG = logging.getLogger(__name__)
+SEND_ATTEMPTS = 3
+
+
+class UdpStream:
+    """A stream that sends each element written as a datagram."""
+
+    def __init__(self, sock: socket.SocketType) -> None:
+        """Construct a new stream, from a connected socket."""
+
+        self.sock = sock
+        self.name = f"udp:{sock.fileno()}"
+
+    def write(self, data: bytes) -> int:
+        """Send a single datagram."""
+
+        for _ in range(SEND_ATTEMPTS):
+            try:
+                return self.sock.send(data)
+            except ConnectionRefusedError:
+                # this only reports that nothing received earlier datagrams
+                pass
+        return len(data)
+
+    def flush(self) -> None:
+        """Datagrams aren't buffered."""
+
+    def close(self) -> None:
+        """Close the underlying socket."""
+
+        self.sock.close()
 
 
 class UdpClientManager(LockEntity):
@@ -76,8 +106,7 @@ class UdpClientManager(LockEntity):
         sock = create_udp_socket(host)
         mtu = discover_mtu(sock)
         mtu -= 60 + 8  # subtract ip and udp header space
-        sock_file = cast(socket.socket, sock).makefile("wb")
-        sock_file.flush()
+        sock_file = UdpStream(sock)
 
         with self.lock:
             sock_id = self.writer.add_stream(sock_file, flush=flush)
-- 
2.43.0


From a4f677a2ac971fada833cf27c8908336aadac33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:58 +0000
Subject: [PATCH 51/76] fix: don't fail to add a udp client that's removed in
 the meantime

---
 vtelem/classes/udp_client_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index b7db0f5..fb99f31 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -107,12 +107,12 @@ class UdpClientManager(LockEntity):
         mtu = discover_mtu(sock)
         mtu -= 60 + 8  # subtract ip and udp header space
         sock_file = UdpStream(sock)
+        name = sock.getsockname()
 
         with self.lock:
             sock_id = self.writer.add_stream(sock_file, flush=flush)
             self.clients[sock_id] = (sock, sock_file)
 
-        name = sock.getsockname()
         LOG.info(
             "adding stream client '%s:%d' -> '%s:%d'",
             name[0],
-- 
2.43.0


From 953d121ff6fc33ae7c306179548f80f2087c23e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:58 +0000
Subject: [PATCH 52/76] fix: don't remove other streams when removing a unknown
 udp client

---
 vtelem/classes/udp_client_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index fb99f31..0824384 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -133,5 +133,7 @@ class UdpClientManager(LockEntity):
         """Remove a client connection by integer identifier, closes it."""
 
         with self.lock:
-            if self.writer.remove_stream(sock_id):
+            # the writer also has streams that aren't ours
+            if sock_id in self.clients:
+                self.writer.remove_stream(sock_id)
                 self.closer(sock_id)
-- 
2.43.0


From 60a46d155de0f388df5cdebb943a9decaa89b42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:58 +0000
Subject: [PATCH 53/76] fix: report incomplete udp commands, and clients that
 are already gone

---
 vtelem/factories/udp_client_manager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vtelem/factories/udp_client_manager.py b/vtelem/factories/udp_client_manager.py
index 991a423..7f862a8 100644
--- a/vtelem/factories/udp_client_manager.py
+++ b/vtelem/factories/udp_client_manager.py
@@ -16,11 +16,14 @@ from vtelem.types.command_queue_daemon import ResultCbType
 def add_client(manager: UdpClientManager, data: dict) -> Tuple[bool, str]:
     """Attempt to add a new client."""
 
-    if "host" not in data and "port" not in data:
+    if "host" not in data or "port" not in data:
         return False, "must provide 'host' and 'port'"
 
     result = manager.add_client(Host(data["host"], data["port"]))
-    client_name = manager.client_name(result[0])
+    with manager.lock:
+        if result[0] not in manager.clients:
+            return False, f"client '{result[0]}' is already removed"
+        client_name = manager.client_name(result[0])
     client_str = f"{client_name[0]}:{client_name[1]}"
     msg = f"client '{result[0]}' ({client_str}) added with mtu '{result[1]}'"
     return True, msg
-- 
2.43.0


From 3f81806183b4e9102a45c2a348fb5de00bdfcd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:34 +0000
Subject: [PATCH 54/76] fix: don't add request paths when looking up unknown
 ones

The index listed them, and failed while they were added.
---
 vtelem/classes/http_request_mapper.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 3a3ad24..e5444bc 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -43,10 +43,10 @@ class HttpRequestMapper:
             """
 
             handles: dict = {}
-            for method, handlers in self.requests.items():
+            for method, handlers in list(self.requests.items()):
                 handles[method] = []
-                for path in handlers.keys():
-                    handle_inst = self.handle_data[method][path]
+                for path in list(handlers):
+                    handle_inst = self.get_handle(method, path)[1]
                     handle_data = {"path": path}
                     if handle_inst is not None:
                         handle_data["description"] = handle_inst["Description"]
@@ -60,9 +60,10 @@ class HttpRequestMapper:
     ) -> Tuple[Opt[RequestHandle], Opt[dict]]:
         """Retrieve a handle by request type and path."""
 
+        # don't add entries for paths that aren't registered
         return (
-            self.requests[request_type][path],
-            self.handle_data[request_type][path],
+            self.requests.get(request_type, {}).get(path),
+            self.handle_data.get(request_type, {}).get(path),
         )
 
     def add_handler(
@@ -80,13 +81,13 @@ class HttpRequestMapper:
         """
 
         path = "/" + path.lower()
-        self.requests[request_type][path] = handle
         handle_data = {}
         handle_data["Description"] = description
         handle_data["Content-Type"] = f"{response_type}; charset={charset}"
         if data is not None:
             handle_data.update(data)
         self.handle_data[request_type][path] = handle_data
+        self.requests[request_type][path] = handle
 
 
 # pylint: disable=attribute-defined-outside-init
-- 
2.43.0


From 9b02ac0664ad02d143072176d31092a1cc9a5ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:34 +0000
Subject: [PATCH 55/76] fix: respond with a valid message to each http request

The content length counted characters rather than bytes, error responses had
extra bytes or an invalid status line and an error in a handler caused no
response.
---
 vtelem/classes/http_request_mapper.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index e5444bc..974f225 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -113,7 +113,6 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         self.send_error(
             HTTPStatus.NOT_IMPLEMENTED, "no request-mapper configured"
         )
-        self.end_headers()
         self.close_connection = True
 
     def _no_handle_response(self, command: str) -> None:
@@ -123,7 +122,6 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
 
         msg = f"no request-mapper for '{command}' path '{self.path}'"
         self.send_error(HTTPStatus.NOT_FOUND, msg)
-        self.end_headers()
         self.close_connection = True
 
     def _handle(self, _data: dict = None) -> None:
@@ -153,23 +151,28 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
             return self._no_handle_response(command)
 
         # run handler
-        success, content = handle(self, data)
+        try:
+            success, content = handle(self, data)
+        except Exception:
+            self.send_error(HTTPStatus.INTERNAL_SERVER_ERROR)
+            raise
         status = HTTPStatus.OK if success else HTTPStatus.BAD_REQUEST
 
+        # not every message can be part of the status line
         if not success:
-            self.send_error(status, content)
-            self.end_headers()
+            self.send_error(status, explain=content)
             self.close_connection = True
             return None
 
+        body = content.encode()
         self.send_response(status)
         if handle_data is not None:
             for key, value in handle_data.items():
                 self.send_header(key, value)
-        self.send_header("Content-Length", str(len(content)))
+        self.send_header("Content-Length", str(len(body)))
         self.end_headers()
         if not headers_only:
-            self.wfile.write(content.encode())
+            self.wfile.write(body)
         self.log_request(status)
         return None
 
-- 
2.43.0


From 2f4435e55cc10825b648c4dd1e482a828a812b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:34 +0000
Subject: [PATCH 56/76] fix: read http request content entirely, reject it when
 it's incomplete

A truncated command was executed, and content that's not read resets the
connection before the response arrives.
---
 vtelem/classes/http_request_mapper.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 974f225..62b8499 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -186,7 +186,11 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
 
     def do_POST(self) -> None:  # pylint: disable=invalid-name
         """Respond to a POST request."""
-        return self._handle(get_post_request_data(self))
+        try:
+            data = get_post_request_data(self)
+        except ValueError as exc:
+            return self.send_error(HTTPStatus.BAD_REQUEST, explain=str(exc))
+        return self._handle(data)
 
 
 def parse_content_type(value: str) -> Opt[dict]:
@@ -326,8 +330,7 @@ def get_post_request_data(request: BaseHTTPRequestHandler) -> dict:
         boundary = get_multipart_boundary(content_type)
         real_parts = []
         if boundary is not None:
-            data = request.rfile.read(length).decode("utf-8")
-            parsed = parse_multipart_data(boundary, data)
+            parsed = parse_multipart_data(boundary, body.decode("utf-8"))
 
             # this is now essentially 'lines of an http request', so we should
             # figure out the best way to parse it...
@@ -339,19 +342,27 @@ def get_post_request_data(request: BaseHTTPRequestHandler) -> dict:
 
     def url_encoded_parser(request: BaseHTTPRequestHandler, _: dict) -> dict:
         """Parse url-encoded POST request data."""
-        field_data = request.rfile.read(length).decode("utf-8")
-        return urllib.parse.parse_qs(field_data)  # type: ignore
+        return urllib.parse.parse_qs(body.decode("utf-8"))  # type: ignore
 
     parsers: dict = {
         "multipart": {"form-data": form_parser},
         "application": {"x-www-form-urlencoded": url_encoded_parser},
     }
 
+    # read the entire request, even if we don't have a parser for it
+    body = b""
+    if "Content-Length" in request.headers:
+        length = int(request.headers["Content-Length"])
+        if length < 0:
+            raise ValueError(f"invalid content length '{length}'")
+        body = request.rfile.read(length)
+        if len(body) < length:
+            raise ValueError("incomplete content")
+
     # if the request has content, attempt to find a parser for it
     keys = ["Content-Length", "Content-Type"]
     if all(key in request.headers for key in keys):
         content_type = parse_content_type(request.headers["Content-Type"])
-        length = int(request.headers["Content-Length"])
         if content_type is not None and content_type["type"] in parsers:
             subparsers = parsers[content_type["type"]]
             if content_type["subtype"] in subparsers:
-- 
2.43.0


From 5264c4d68c4615c625a6c137d3557b139260bee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:34 +0000
Subject: [PATCH 57/76] fix: don't wait for a client's TLS handshake before
 accepting others

Also keep the socket open when the daemon is stopped, so it can start again.
---
 vtelem/daemon/http.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/vtelem/daemon/http.py b/vtelem/daemon/http.py
index e1d16f6..4ee9952 100644
--- a/vtelem/daemon/http.py
+++ b/vtelem/daemon/http.py
@@ -58,7 +58,8 @@ class HttpDaemon(DaemonBase):
 
         def stop_injector() -> None:
             """Signal the server to stop."""
-            self.server.shutdown()
+            if not self.closed:
+                self.server.shutdown()
 
         self.function["inject_stop"] = stop_injector
 
@@ -129,11 +130,12 @@ class HttpDaemon(DaemonBase):
                     service_registry.add(
                         self.name, [self.server.server_address]
                     )
-            if self.ssl_context is not None:
-                with self.ssl_context.wrap_socket(
-                    self.server.socket, server_side=True
-                ) as ssock:
-                    self.server.socket = ssock
-                    self.server.serve_forever(0.1)
-            else:
-                self.server.serve_forever(0.1)
+            # a client's handshake shouldn't block accepting other ones
+            if self.ssl_context is not None and not self.uses_tls:
+                self.server.socket = self.ssl_context.wrap_socket(
+                    self.server.socket,
+                    server_side=True,
+                    do_handshake_on_connect=False,
+                )
+                self.uses_tls = True
+            self.server.serve_forever(0.1)
-- 
2.43.0


From 35e010b7aa701e5b46d81634c16ba5d9bc494ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:34 +0000
Subject: [PATCH 58/76] fix: respond to http requests with an invalid
 identifier or empty form

---
 vtelem/factories/telemetry_server.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vtelem/factories/telemetry_server.py b/vtelem/factories/telemetry_server.py
index b52d219..76bcd3d 100644
--- a/vtelem/factories/telemetry_server.py
+++ b/vtelem/factories/telemetry_server.py
@@ -33,9 +33,13 @@ def register_http_handlers(
         if provided_id is None:
             return False, "no 'app_id' argument provided"
         provided_id = provided_id[0]
-        if our_id.get() != int(provided_id):
+        try:
+            matches = our_id.get() == int(provided_id)
+        except ValueError:
+            matches = False
+        if not matches:
             msg = "'app_id' mismatch, expected '{}' got '{}'"
-            return False, msg.format(our_id.get(), int(provided_id))
+            return False, msg.format(our_id.get(), provided_id)
         server.stop_all()
         return True, "success"
 
@@ -64,7 +68,7 @@ def register_http_handlers(
 
         # collapse list items into single values
         for key, value in data.items():
-            if isinstance(value, list):
+            if value and isinstance(value, list):
                 data[key] = value[0]
 
         # move additional arguments to the "data" key
-- 
2.43.0


From e05d9b0de5a8cfc5113ce59918eab49744e60876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:27 +0000
Subject: [PATCH 59/76] fix: end every tcp client's handler when stopping, and
 forget clients that left

A handler that registered its client while the daemon stopped was never
signaled, and the semaphores of clients that left were kept.
---
 vtelem/daemon/tcp_telemetry.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/vtelem/daemon/tcp_telemetry.py b/vtelem/daemon/tcp_telemetry.py
index 16546ad..05cd735 100644
--- a/vtelem/daemon/tcp_telemetry.py
+++ b/vtelem/daemon/tcp_telemetry.py
@@ -12,7 +12,7 @@ from typing import Any, Dict, Tuple
 
 # internal
 from vtelem.client.tcp import TcpClient
-from vtelem.daemon import DaemonBase
+from vtelem.daemon import DaemonBase, DaemonState
 from vtelem.mtu import DEFAULT_MTU, Host
 from vtelem.stream.writer import QueueClientManager, StreamWriter
 from vtelem.telemetry.environment import TelemetryEnvironment
@@ -34,23 +34,28 @@ class TcpTelemetryHandler(socketserver.StreamRequestHandler):
         )
 
         daemon: TcpTelemetryDaemon = self.server.daemon  # type: ignore
-        daemon.increment_metric("clients")
 
         # make sure our stream has a name attribute
         stream: BytesIO = self.wfile  # type: ignore
         stream.name = f"{self.client_address[0]}:{self.client_address[1]}"
 
-        # add the socket to the stream writer
+        # add the socket to the stream writer, unless the daemon won't signal
+        # us anymore because it already stops
         writer: StreamWriter = daemon.writer
         with daemon.lock:
+            if daemon.get_state() in (DaemonState.STOPPING, DaemonState.IDLE):
+                return
             stream_id, sem = writer.add_semaphore_stream(stream)
             daemon.client_sems[stream_id] = sem
+            daemon.increment_metric("clients")
 
         # wait for something to signal us to close the connection
         try:
             sem.acquire()  # pylint:disable=consider-using-with
         finally:
             writer.remove_stream(stream_id, False)
+            with daemon.lock:
+                daemon.client_sems.pop(stream_id, None)
             LOG.info(
                 "%s:%d disconnected",
                 self.client_address[0],
@@ -89,10 +94,8 @@ class TcpTelemetryDaemon(QueueClientManager, DaemonBase):
 
             self.server.shutdown()
             with self.lock:
-                closed_clients = list(self.client_sems.keys())
-            for client in closed_clients:
-                self.client_sems[client].release()
-                del self.client_sems[client]
+                for sem in self.client_sems.values():
+                    sem.release()
 
         self.function["inject_stop"] = stopper
         self.server.daemon = self  # type: ignore
-- 
2.43.0


From 01699876efb101d3d0568503e860b4dacb885c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:57 +0000
Subject: [PATCH 60/76] fix: accept udp commands whose numbers are strings, as
 received over http

---
 vtelem/factories/udp_client_manager.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/vtelem/factories/udp_client_manager.py b/vtelem/factories/udp_client_manager.py
index 7f862a8..196c4a0 100644
--- a/vtelem/factories/udp_client_manager.py
+++ b/vtelem/factories/udp_client_manager.py
@@ -4,7 +4,7 @@ vtelem - A module for creating functions based on a udp-client-manager.
 
 # built-in
 import json
-from typing import Tuple
+from typing import Optional, Tuple
 
 # internal
 from vtelem.classes.udp_client_manager import UdpClientManager
@@ -13,13 +13,22 @@ from vtelem.mtu import Host
 from vtelem.types.command_queue_daemon import ResultCbType
 
 
+def get_identifier(data: dict) -> Optional[int]:
+    """Get a client identifier, it's a String when received over http."""
+
+    try:
+        return int(data["id"])
+    except (TypeError, ValueError):
+        return None
+
+
 def add_client(manager: UdpClientManager, data: dict) -> Tuple[bool, str]:
     """Attempt to add a new client."""
 
     if "host" not in data or "port" not in data:
         return False, "must provide 'host' and 'port'"
 
-    result = manager.add_client(Host(data["host"], data["port"]))
+    result = manager.add_client(Host(data["host"], int(data["port"])))
     with manager.lock:
         if result[0] not in manager.clients:
             return False, f"client '{result[0]}' is already removed"
@@ -35,9 +44,10 @@ def remove_client(manager: UdpClientManager, data: dict) -> Tuple[bool, str]:
     with manager.lock:
         if "id" not in data:
             return False, "client identifier not provided"
-        if data["id"] not in manager.clients:
+        sock_id = get_identifier(data)
+        if sock_id not in manager.clients:
             return False, f"unknown client identifier '{data['id']}'"
-        manager.remove_client(data["id"])
+        manager.remove_client(sock_id)
     return True, f"client '{data['id']}' removed"
 
 
@@ -47,9 +57,10 @@ def list_client(manager: UdpClientManager, data: dict) -> Tuple[bool, str]:
     with manager.lock:
         sock_ids = list(manager.clients.keys())
         if "id" in data:
-            if data["id"] not in manager.clients:
+            sock_id = get_identifier(data)
+            if sock_id not in manager.clients:
                 return False, f"unknown client identifier '{data['id']}'"
-            sock_ids = [data["id"]]
+            sock_ids = [sock_id]
 
         result = {}
         for sock_id in sock_ids:
-- 
2.43.0


From ade87dab3bcb52a5f42b665b9a25c2be71477d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:12 +0000
Subject: [PATCH 61/76] fix: allow enum metrics to be set in an environment
 without metrics

---
 vtelem/telemetry/environment.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 8b32b8a..74e7164 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -141,8 +141,7 @@ class TelemetryEnvironment(ChannelEnvironment):
     ) -> None:
         """Set the value for an enumeration metric."""
 
-        assert self.metrics is not None
-        if name in self.metrics:
+        if self.metrics is not None and name in self.metrics:
             chan = self.registries["channel"].get_item(self.metrics[name])
             assert chan is not None
             enum_type = self.enum_channel_types[self.metrics[name]]
-- 
2.43.0


From 55d05d4323ae8967ba58b87a3a9c58107a0582af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:12 +0000
Subject: [PATCH 62/76] fix: allow a telemetry server without the
 websocket-command service

---
 vtelem/telemetry/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index 445a8ef..b2150ad 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -143,7 +143,7 @@ class TelemetryServer(HttpDaemon):
                 telem,
                 self.time_keeper,
             )
-        assert self.daemons.add_daemon(ws_cmd, ["stream"])
+            assert self.daemons.add_daemon(ws_cmd, ["stream"])
 
         # make the daemon-manager commandable
         create_daemon_manager_commander(self.daemons, queue_daemon)
-- 
2.43.0


From f2fba1a4a7140feeb143a0ae5c66f1270f2798a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:12 +0000
Subject: [PATCH 63/76] fix: accept daemon commands for a single daemon, as
 received over http

---
 vtelem/factories/daemon_manager.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vtelem/factories/daemon_manager.py b/vtelem/factories/daemon_manager.py
index b358253..92e89fb 100644
--- a/vtelem/factories/daemon_manager.py
+++ b/vtelem/factories/daemon_manager.py
@@ -29,11 +29,15 @@ def create_daemon_manager_commander(
 
         oper = cmd["operation"].lower()
         if is_operation(oper):
-            if "daemons" not in cmd or not isinstance(cmd["daemons"], list):
+            daemons = cmd.get("daemons")
+
+            # a single daemon is a String when received over http
+            if isinstance(daemons, str):
+                daemons = [daemons]
+            if not isinstance(daemons, list):
                 return False, f"'daemons' not provided as a list for '{oper}'"
 
             # allow 'all' to be a special key
-            daemons = cmd["daemons"]
             if "all" in daemons:
                 daemons = list(manager.states().keys())
 
-- 
2.43.0


From 8c7525e74e93335e66cdfb4b0622b19fe851db80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:30 +0000
Subject: [PATCH 64/76] fix: close the tcp-telemetry socket when a telemetry
 server stops

---
 vtelem/daemon/tcp_telemetry.py | 18 ++++++++++++++++--
 vtelem/telemetry/server.py     | 20 +++++++++++---------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/vtelem/daemon/tcp_telemetry.py b/vtelem/daemon/tcp_telemetry.py
index 05cd735..3438446 100644
--- a/vtelem/daemon/tcp_telemetry.py
+++ b/vtelem/daemon/tcp_telemetry.py
@@ -86,13 +86,15 @@ class TcpTelemetryDaemon(QueueClientManager, DaemonBase):
         self.server = socketserver.ThreadingTCPServer(
             address, TcpTelemetryHandler
         )
+        self.closed = False
         self.client_sems: Dict[int, Semaphore] = {}
         self.reset_metric("clients")
 
         def stopper() -> None:
             """Stop running this server and close active client connections."""
 
-            self.server.shutdown()
+            if not self.closed:
+                self.server.shutdown()
             with self.lock:
                 for sem in self.client_sems.values():
                     sem.release()
@@ -123,7 +125,19 @@ class TcpTelemetryDaemon(QueueClientManager, DaemonBase):
 
         return self.server.server_address
 
+    def close(self) -> bool:
+        """Close the server and clean up its resources."""
+
+        with self.lock:
+            if self.get_state() != DaemonState.IDLE or self.closed:
+                return False
+            self.closed = True
+
+        self.server.server_close()
+        return True
+
     def run(self, *_, **__) -> None:
         """Listen for client connections."""
 
-        self.server.serve_forever(0.1)
+        if not self.closed:
+            self.server.serve_forever(0.1)
diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index b2150ad..cde1d3d 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -7,7 +7,7 @@ from collections import defaultdict
 from contextlib import contextmanager
 import socket
 import threading
-from typing import Any, Dict, Iterator
+from typing import Any, Dict, Iterator, Optional
 
 # internal
 from vtelem.channel.group_registry import ChannelGroupRegistry
@@ -107,16 +107,16 @@ class TelemetryServer(HttpDaemon):
             )
 
         # add the tcp-telemetry daemon
+        self.tcp_telemetry: Optional[TcpTelemetryDaemon] = None
         if services.tcp_tlm.enabled:
-            assert self.daemons.add_daemon(
-                TcpTelemetryDaemon(
-                    services.tcp_tlm.name,
-                    writer,
-                    telem,
-                    services.tcp_tlm.host,
-                    self.time_keeper,
-                )
+            self.tcp_telemetry = TcpTelemetryDaemon(
+                services.tcp_tlm.name,
+                writer,
+                telem,
+                services.tcp_tlm.host,
+                self.time_keeper,
             )
+            assert self.daemons.add_daemon(self.tcp_telemetry)
 
         # add the http daemon
         super().__init__(
@@ -218,6 +218,8 @@ class TelemetryServer(HttpDaemon):
         if self.http_enabled:
             assert self.perform(DaemonOperation.STOP)
         self.close()
+        if self.tcp_telemetry is not None:
+            self.tcp_telemetry.close()
 
         self.udp_clients.remove_all()
         self.state_sem.release()
-- 
2.43.0


From cccffb25029cf2b6c8b31f35baffb1f3792a431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:26 +0000
Subject: [PATCH 65/76] fix: allow daemons to be stopped before their worker
 begins

---
 vtelem/daemon/__init__.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index bb078a6..0cc834a 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -249,7 +249,13 @@ class DaemonBase(TimeEntity):
         """
 
         try:
-            if self.set_state(DaemonState.RUNNING):
+            with self.lock:
+                # we may be requested to stop before we begin
+                should_run = (
+                    self.state != DaemonState.STOPPING
+                    and self.set_state(DaemonState.RUNNING)
+                )
+            if should_run:
                 self.run(*args, **kwargs)
         except KeyboardInterrupt:
             LOG.warning("%s: interrupted", self.name)
@@ -309,15 +315,14 @@ class DaemonBase(TimeEntity):
             self.increment_metric("starts")
             assert self.set_state(DaemonState.STARTING)
 
-        try:
-            thread.start()
-        except RuntimeError as exc:
-            LOG.error("%s: couldn't start worker: %s", self.name, exc)
-            with self.lock:
+            try:
+                thread.start()
+            except RuntimeError as exc:
+                LOG.error("%s: couldn't start worker: %s", self.name, exc)
                 self.thread = None
                 self.increment_metric("errors")
                 assert self.set_state(DaemonState.IDLE)
-            return False
+                return False
 
         return True
 
@@ -359,12 +364,20 @@ class DaemonBase(TimeEntity):
 
         # make sure we're in the correct state to attempt a stop
         thread = None
+        inject = "inject_stop" in self.function
         with self.lock:
-            if self.state in (DaemonState.RUNNING, DaemonState.PAUSED):
+            if self.state == DaemonState.STARTING:
+                # the worker won't run, so it doesn't need a signal
+                inject = False
+            if self.state in (
+                DaemonState.STARTING,
+                DaemonState.RUNNING,
+                DaemonState.PAUSED,
+            ):
                 if self.set_state(DaemonState.STOPPING):
                     thread = self.thread
 
-        if thread is not None and "inject_stop" in self.function:
+        if thread is not None and inject:
             self.function["inject_stop"]()
 
         return thread
-- 
2.43.0


From fd55212802bdd51f36a1a9cf1d6a5da467ee6a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:39 +0000
Subject: [PATCH 66/76] fix: don't hold the daemon manager's lock while waiting
 for daemons

---
 vtelem/daemon/manager.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/vtelem/daemon/manager.py b/vtelem/daemon/manager.py
index ae64aea..aa2b6e9 100644
--- a/vtelem/daemon/manager.py
+++ b/vtelem/daemon/manager.py
@@ -94,23 +94,19 @@ class DaemonManager(LockEntity):
 
         failures = 0
         with self.lock:
-            results: Dict[str, bool] = {}
-            self.perform_stack(
-                list(self.daemons.keys()),
-                [],
-                results,
-                operation,
-                *args,
-                **kwargs
-            )
-            for result_key, result_val in results.items():
-                if not result_val:
-                    LOG.error(
-                        "'%s' on '%s' failed.",
-                        operation_str(operation),
-                        result_key,
-                    )
-                    failures += 1
+            names = list(self.daemons.keys())
+
+        # an operation may wait for a daemon that's using this manager
+        results: Dict[str, bool] = {}
+        self.perform_stack(names, [], results, operation, *args, **kwargs)
+        for result_key, result_val in results.items():
+            if not result_val:
+                LOG.error(
+                    "'%s' on '%s' failed.",
+                    operation_str(operation),
+                    result_key,
+                )
+                failures += 1
         return failures == 0
 
     def perform_str_all(self, operation: str, *args, **kwargs) -> bool:
@@ -134,9 +130,7 @@ class DaemonManager(LockEntity):
                 name,
             )
             return False
-        with self.lock:
-            result = self.daemons[name].perform(operation, *args, **kwargs)
-        return result
+        return self.daemons[name].perform(operation, *args, **kwargs)
 
     def perform_str(self, name: str, operation: str, *args, **kwargs) -> bool:
         """Perform an action on one or more daemons by String."""
-- 
2.43.0


From 80834f101028d6b4109d202bf980097dcf547695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:49 +0000
Subject: [PATCH 67/76] fix: notice a requested stop while sleeping when time
 is slowed down

---
 vtelem/classes/time_keeper.py | 13 +++++++++++++
 vtelem/daemon/synchronous.py  | 14 +++++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/time_keeper.py b/vtelem/classes/time_keeper.py
index bb26e9b..9f9663f 100644
--- a/vtelem/classes/time_keeper.py
+++ b/vtelem/classes/time_keeper.py
@@ -88,3 +88,16 @@ class TimeKeeper(Daemon):
 
         # sleep for the unscaled amount if time isn't advancing
         self.sleep_function(amount / (self.scalar or 1.0))
+
+    def sleep_scaled(self, amount: float, limit: float) -> float:
+        """
+        Sleep for an amount that's scaled appropriately, for a limited amount
+        of unscaled time. Returns the amount slept.
+        """
+
+        scalar = self.scalar or 1.0
+        if amount / scalar <= limit:
+            self.sleep_function(amount / scalar)
+            return amount
+        self.sleep_function(limit)
+        return limit * scalar
diff --git a/vtelem/daemon/synchronous.py b/vtelem/daemon/synchronous.py
index 07d558d..a20130c 100644
--- a/vtelem/daemon/synchronous.py
+++ b/vtelem/daemon/synchronous.py
@@ -41,6 +41,9 @@ class Daemon(DaemonBase):
         self.function["task"] = task
         self.function["init"] = init
         self.function["rate"] = rate
+        self.function["sleep_some"] = self.sleep_some
+        if time_keeper is not None:
+            self.function["sleep_some"] = time_keeper.sleep_scaled
         if state_change_cb is not None:
             self.function["state_change"] = state_change_cb
 
@@ -82,13 +85,18 @@ class Daemon(DaemonBase):
 
         return self.get_time()
 
+    def sleep_some(self, amount: float, limit: float) -> float:
+        """Sleep for a limited amount of time, returns the amount slept."""
+
+        interval = min(amount, limit)
+        self.function["sleep"](interval)
+        return interval
+
     def interval_sleep(self, amount: float) -> None:
         """Sleep for an amount of time, unless stop is requested."""
 
         while amount > 0.0 and self.state != DaemonState.STOPPING:
-            interval = min(amount, MAX_SLEEP)
-            self.function["sleep"](interval)
-            amount -= interval
+            amount -= self.function["sleep_some"](amount, MAX_SLEEP)
 
     def run(self, *args, **kwargs) -> None:
         """Runs this daemon's thread, until stop is requested."""
-- 
2.43.0


From 0568dde9ebe058339bdfce51074d56d71f45a5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:13 +0000
Subject: [PATCH 68/76] fix: allow time to be scaled while some daemons aren't
 running

---
 vtelem/telemetry/server.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index cde1d3d..0ee40b1 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -191,9 +191,17 @@ class TelemetryServer(HttpDaemon):
     def scale_speed(self, scalar: float) -> None:
         """Change the time scaling for the time keeper."""
 
-        assert self.daemons.perform_all(DaemonOperation.PAUSE)
-        self.time_keeper.scale(scalar)
-        assert self.daemons.perform_all(DaemonOperation.UNPAUSE)
+        # only daemons that are running can be paused, others keep their state
+        paused = [
+            daemon
+            for daemon in map(self.daemons.get, self.daemons.states())
+            if daemon is not None and daemon.pause()
+        ]
+        try:
+            self.time_keeper.scale(scalar)
+        finally:
+            for daemon in paused:
+                daemon.unpause()
 
     def start_all(self) -> None:
         """Start everything."""
-- 
2.43.0


From b8045339f25dae91bb196dccfed6105ca1e4bed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:13 +0000
Subject: [PATCH 69/76] fix: stop everything when a daemon doesn't stop in time

---
 vtelem/telemetry/server.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index 0ee40b1..adb1b1a 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -221,16 +221,19 @@ class TelemetryServer(HttpDaemon):
     def stop_all(self) -> None:
         """Stop everything."""
 
-        assert self.daemons.perform_all(DaemonOperation.STOP)
+        # something that doesn't stop in time shouldn't prevent everything
+        # else from being stopped and closed
+        stopped = self.daemons.perform_all(DaemonOperation.STOP)
 
         if self.http_enabled:
-            assert self.perform(DaemonOperation.STOP)
+            stopped = self.perform(DaemonOperation.STOP) and stopped
         self.close()
         if self.tcp_telemetry is not None:
             self.tcp_telemetry.close()
 
         self.udp_clients.remove_all()
         self.state_sem.release()
+        assert stopped
 
     @contextmanager
     def booted(self, *_, **__) -> Iterator[None]:
-- 
2.43.0


From 250c9c658a27d6cc9bf4e44bb353ff265751504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:14 +0000
Subject: [PATCH 70/76] fix: don't leave telemetry waiting for a stopped stream
 writer

---
 vtelem/telemetry/server.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index adb1b1a..d143e32 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -14,7 +14,7 @@ from vtelem.channel.group_registry import ChannelGroupRegistry
 from vtelem.classes.http_request_mapper import MapperAwareRequestHandler
 from vtelem.classes.time_keeper import TimeKeeper
 from vtelem.classes.udp_client_manager import UdpClientManager
-from vtelem.daemon import DaemonOperation
+from vtelem.daemon import DaemonOperation, DaemonState
 from vtelem.daemon.command_queue import CommandQueueDaemon
 from vtelem.daemon.http import HttpDaemon
 from vtelem.daemon.manager import DaemonManager
@@ -29,6 +29,7 @@ from vtelem.factories.udp_client_manager import create_udp_client_commander
 from vtelem.factories.websocket_daemon import commandable_websocket_daemon
 from vtelem.mtu import DEFAULT_MTU, Host, discover_ipv4_mtu, mtu_to_usable
 from vtelem.registry.service import ServiceRegistry
+from vtelem.stream import queue_get
 from vtelem.stream.writer import StreamWriter
 from vtelem.types.telemetry_server import (
     AppLoop,
@@ -92,7 +93,7 @@ class TelemetryServer(HttpDaemon):
             self.time_keeper,
         )
         self.udp_clients = UdpClientManager(writer)
-        assert self.daemons.add_daemon(writer)
+        assert self.daemons.add_daemon(writer, ["telemetry"])
 
         # add the websocket-telemetry daemon
         if services.websocket_tlm.enabled:
@@ -221,6 +222,16 @@ class TelemetryServer(HttpDaemon):
     def stop_all(self) -> None:
         """Stop everything."""
 
+        # telemetry can't wait for space in the frame queue if the stream
+        # writer is already stopped
+        telem = self.daemons.get("telemetry")
+        assert isinstance(telem, TelemetryDaemon)
+        stream = self.daemons.get("stream")
+        assert stream is not None
+        if stream.get_state() == DaemonState.IDLE:
+            for _ in range(telem.frame_queue.qsize()):
+                queue_get(telem.frame_queue, 0)
+
         # something that doesn't stop in time shouldn't prevent everything
         # else from being stopped and closed
         stopped = self.daemons.perform_all(DaemonOperation.STOP)
-- 
2.43.0


From 7a2e5aa3b7b55fa8900257a0319ddc357c0bda07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:14 +0000
Subject: [PATCH 71/76] fix: start applications exactly when a telemetry server
 is started

---
 vtelem/telemetry/server.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index d143e32..91d4602 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -60,6 +60,8 @@ class TelemetryServer(HttpDaemon):
         self.daemons = DaemonManager()
         self.state_sem = threading.Semaphore(0)
         self.first_start = True
+        self.started = False
+        self.app_lock = threading.Lock()
 
         # add the ticker
         self.time_keeper = TimeKeeper("time", tick_length)
@@ -182,11 +184,12 @@ class TelemetryServer(HttpDaemon):
             time_keeper=self.time_keeper,
             init=setup_caller,
         )
-        result = self.daemons.add_daemon(daemon, ["telemetry"])
-        if not self.first_start:
-            app_daemon = self.daemons.get(name)
-            assert app_daemon is not None
-            assert app_daemon.perform(DaemonOperation.START)
+        # the application is started with everything else if we aren't
+        # started, otherwise it needs to be started here
+        with self.app_lock:
+            result = self.daemons.add_daemon(daemon, ["telemetry"])
+            if result and self.started:
+                assert daemon.start()
         return result
 
     def scale_speed(self, scalar: float) -> None:
@@ -211,7 +214,9 @@ class TelemetryServer(HttpDaemon):
         assert isinstance(telem, TelemetryDaemon)
         kwargs: dict = {"service_registry": telem.registries["services"]}
         kwargs["first_start"] = self.first_start
-        assert self.daemons.perform_all(DaemonOperation.START, **kwargs)
+        with self.app_lock:
+            assert self.daemons.perform_all(DaemonOperation.START, **kwargs)
+            self.started = True
 
         if self.http_enabled:
             assert self.perform(DaemonOperation.START, **kwargs)
@@ -222,6 +227,9 @@ class TelemetryServer(HttpDaemon):
     def stop_all(self) -> None:
         """Stop everything."""
 
+        with self.app_lock:
+            self.started = False
+
         # telemetry can't wait for space in the frame queue if the stream
         # writer is already stopped
         telem = self.daemons.get("telemetry")
-- 
2.43.0


From e4cebcda7d932554afebc9bded513ff0721490b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:58 +0000
Subject: [PATCH 72/76] fix: allow a telemetry server's shutdown to be
 requested more than once

---
 vtelem/telemetry/server.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index 91d4602..db67878 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -62,6 +62,7 @@ class TelemetryServer(HttpDaemon):
         self.first_start = True
         self.started = False
         self.app_lock = threading.Lock()
+        self.stop_lock = threading.RLock()
 
         # add the ticker
         self.time_keeper = TimeKeeper("time", tick_length)
@@ -227,6 +228,13 @@ class TelemetryServer(HttpDaemon):
     def stop_all(self) -> None:
         """Stop everything."""
 
+        # this may be requested more than once
+        with self.stop_lock:
+            self.stop_everything()
+
+    def stop_everything(self) -> None:
+        """Stop all daemons and close everything that's listening."""
+
         with self.app_lock:
             self.started = False
 
@@ -252,7 +260,12 @@ class TelemetryServer(HttpDaemon):
 
         self.udp_clients.remove_all()
         self.state_sem.release()
-        assert stopped
+
+        # stopping fails for daemons that something else already stops
+        assert stopped or all(
+            state == DaemonState.IDLE
+            for state in self.daemons.states(False).values()
+        )
 
     @contextmanager
     def booted(self, *_, **__) -> Iterator[None]:
-- 
2.43.0


From 98c363eddc43e9c4f4e19e0c50092807f8c34d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:13 +0000
Subject: [PATCH 73/76] fix: wait for daemons that are already being stopped
 when shutting down

---
 vtelem/telemetry/server.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index db67878..9ec30cc 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -10,6 +10,7 @@ import threading
 from typing import Any, Dict, Iterator, Optional
 
 # internal
+from vtelem import DEFAULT_TIMEOUT
 from vtelem.channel.group_registry import ChannelGroupRegistry
 from vtelem.classes.http_request_mapper import MapperAwareRequestHandler
 from vtelem.classes.time_keeper import TimeKeeper
@@ -254,6 +255,17 @@ class TelemetryServer(HttpDaemon):
 
         if self.http_enabled:
             stopped = self.perform(DaemonOperation.STOP) and stopped
+
+        # something else may already be stopping some of them
+        for daemon in [self, *map(self.daemons.get, self.daemons.states())]:
+            thread = daemon.thread if daemon is not None else None
+            if (
+                thread is not None
+                and thread.is_alive()
+                and thread is not threading.current_thread()
+            ):
+                thread.join(DEFAULT_TIMEOUT)
+
         self.close()
         if self.tcp_telemetry is not None:
             self.tcp_telemetry.close()
-- 
2.43.0


From bc38933e8a4519675d5bc62bedc0dfb2703cc2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:14 +0000
Subject: [PATCH 74/76] fix: serving a daemon with non-string arguments doesn't
 fail

---
 vtelem/daemon/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 0cc834a..ae436d8 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -31,7 +31,9 @@ def dummy_thread(*args, **kwargs) -> int:
     """
 
     LOG.debug(
-        "'dummy_thread' invoked: [%s], %s", ", ".join(args[1:]), str(kwargs)
+        "'dummy_thread' invoked: [%s], %s",
+        ", ".join(map(str, args[1:])),
+        str(kwargs),
     )
     try:
         while True:
-- 
2.43.0


From ecce82f3e3f79ec64e2131ebe6e7fb85ad79087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:14 +0000
Subject: [PATCH 75/76] fix: close an http server however serving it ends

---
 vtelem/daemon/http.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vtelem/daemon/http.py b/vtelem/daemon/http.py
index 4ee9952..c8de621 100644
--- a/vtelem/daemon/http.py
+++ b/vtelem/daemon/http.py
@@ -115,9 +115,11 @@ class HttpDaemon(DaemonBase):
         function returns.
         """
 
-        result = super().serve(*args, main_thread=main_thread, **kwargs)
-        assert self.close()
-        return result
+        try:
+            return super().serve(*args, main_thread=main_thread, **kwargs)
+        finally:
+            # stopping some servers already closes them
+            self.close()
 
     def run(self, *_, **kwargs) -> None:
         """Serve traffic."""
-- 
2.43.0


From f3ffeb0a351e37e35d90929359491414cfbedffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:14 +0000
Subject: [PATCH 76/76] fix: stop what was started when the program can't be
 started

---
 vtelem/app.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vtelem/app.py b/vtelem/app.py
index 3abee27..8243e17 100644
--- a/vtelem/app.py
+++ b/vtelem/app.py
@@ -51,8 +51,13 @@ def entry(args: argparse.Namespace) -> int:
 
     # run until the server shuts down because of timeout, external command, or
     # interruption
-    server.start_all()
-    server.scale_speed(args.time_scale)
+    try:
+        server.start_all()
+        server.scale_speed(args.time_scale)
+    except BaseException:
+        # workers that did start would keep the program from exiting
+        server.stop_all()
+        raise
     server.await_shutdown(args.uptime)
     return 0
 
-- 
2.43.0

