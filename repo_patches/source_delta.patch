From ee75e2513ba91620b977554de3b8e17670954797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 01/60] fix: Message.copy() keeps the message id

---
 katcp/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index c34423c..de98408 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -330,7 +330,7 @@ class Message(object):
             A copy of the message object.
 
         """
-        return Message(self.mtype, self.name, self.arguments)
+        return Message(self.mtype, self.name, self.arguments, self.mid)
 
     def __bytes__(self):
         """Return Message serialized for transmission.
-- 
2.43.0


From 934364761233c15a33e0b6eee7f4d7533163d36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 02/60] fix: parser raises KatcpSyntaxError for non-UTF-8 type
 characters and names

---
 katcp/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/katcp/core.py b/katcp/core.py
index de98408..8f73072 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -590,7 +590,8 @@ class MessageParser(object):
         type_char = line[:1]
         if type_char not in self.TYPE_SYMBOL_LOOKUP:
             raise KatcpSyntaxError(
-                "Bad type character %r." % (ensure_native_str(type_char),))
+                "Bad type character %r."
+                % (ensure_native_str(type_char.decode('latin-1')),))
 
         mtype = self.TYPE_SYMBOL_LOOKUP[type_char]
 
@@ -611,7 +612,7 @@ class MessageParser(object):
             mid = match.group('id')
         else:
             raise KatcpSyntaxError("Bad message name (and possibly id) %r." %
-                                   (ensure_native_str(name),))
+                                   (ensure_native_str(name.decode('latin-1')),))
 
         name = ensure_native_str(name)
 
-- 
2.43.0


From 3c2d741ec67d754d60d02c95737b4044f4044467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 03/60] fix: Parameter.pack checks the value and uses the
 declared KATCP major version

---
 katcp/kattypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/kattypes.py b/katcp/kattypes.py
index b05e82f..3b55c7d 100644
--- a/katcp/kattypes.py
+++ b/katcp/kattypes.py
@@ -627,7 +627,7 @@ class Parameter(object):
             The unescaped KATCP string representing the value.
 
         """
-        return self._kattype.pack(value, self.major)
+        return self._kattype.pack(value, major=self.major)
 
     def unpack(self, value):
         """Unpack the parameter using its kattype.
-- 
2.43.0


From b6fe7040bf608d3ce22b263979f9504c41aff60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 04/60] fix: StrictTimestamp encodes very small and large
 values without exponent

---
 katcp/kattypes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/katcp/kattypes.py b/katcp/kattypes.py
index 3b55c7d..78fe760 100644
--- a/katcp/kattypes.py
+++ b/katcp/kattypes.py
@@ -18,6 +18,7 @@ import re
 import struct
 
 from builtins import object
+from decimal import Decimal
 from functools import partial, update_wrapper, wraps
 try:
     from inspect import getfullargspec as get_args
@@ -463,7 +464,11 @@ class StrictTimestamp(KatcpType):
 
     def encode(self, value, major):
         if isinstance(value, numbers.Real):
-            return b"%r" % value
+            encoded = repr(value)
+            if 'e' in encoded:
+                # Exponent notation is not valid in a strict timestamp
+                encoded = '{:f}'.format(Decimal(encoded))
+            return encoded.encode('ascii')
         else:
             raise ValueError("Could not encode value '%r' as strict timestamp." %
                              value)
-- 
2.43.0


From 861f50dc825d7fc529d7422106107fa2c60b9b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 05/60] fix: encode millisecond timestamps by rounding so that
 they survive decoding and encoding

---
 katcp/kattypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/kattypes.py b/katcp/kattypes.py
index 78fe760..39c8d23 100644
--- a/katcp/kattypes.py
+++ b/katcp/kattypes.py
@@ -419,7 +419,7 @@ class Timestamp(KatcpType):
             return b"%.6f" % float(value)
         else:
             # In milliseconds please!
-            return b"%i" % int(float(value) * SEC_TO_MS_FAC)
+            return b"%i" % int(round(float(value) * SEC_TO_MS_FAC))
 
     def decode(self, value, major):
         try:
-- 
2.43.0


From 264512cd1c3a1008d25db5c007715f5dad820726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 06/60] fix: messages with non-UTF-8 arguments do not end the
 read loop or handler thread

---
 katcp/client.py |  6 +++---
 katcp/server.py | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index a34191e..01e55ad 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -438,7 +438,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
             return self._stream.write(data)
         except Exception:
             self._logger.warn('Could not send message {0!r} to {1!r}'
-                              .format(str(msg), self._bindaddr), exc_info=True)
+                              .format(bytes(msg), self._bindaddr), exc_info=True)
             self._disconnect(exc_info=True)
 
     @gen.coroutine
@@ -545,7 +545,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         if self._logger.isEnabledFor(logging.DEBUG):
             self._logger.debug(
                 "received from {}: {}"
-                .format(self.bind_address_string, repr(str(msg))))
+                .format(self.bind_address_string, repr(bytes(msg))))
 
         if msg.mtype == Message.INFORM:
             return self.handle_inform(msg)
@@ -760,7 +760,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                 except Exception:
                     self._logger.exception(
                         'Unhandled exception in handle_message() from {0} for '
-                        'message {1!r}'.format(self.bind_address_string, str(msg)))
+                        'message {1!r}'.format(self.bind_address_string, bytes(msg)))
 
         self._disconnect()
 
diff --git a/katcp/server.py b/katcp/server.py
index f9190e2..478eda3 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -554,8 +554,8 @@ class KATCPServer(object):
                     if msg:  # Ignore empty messages (i.e empty lines)
                         yield self._device.on_message(client_conn, msg)
                 except Exception:
-                    self._logger.error('Error handling message {0!s}'
-                                       .format(msg), exc_info=True)
+                    self._logger.error('Error handling message {0!r}'
+                                       .format(bytes(msg)), exc_info=True)
                 # Allow the ioloop to run since we may be starving it if
                 # there is buffered data in the stream, resulting in yield
                 # stream.read_until_regex('\n|\r') never actually yielding
@@ -648,7 +648,7 @@ class KATCPServer(object):
         except Exception:
             addr = self.get_address(stream)
             self._logger.warn('Could not send message {0!r} to {1}'
-                              .format(str(msg), addr), exc_info=True)
+                              .format(bytes(msg), addr), exc_info=True)
             stream.close(exc_info=True)
 
     def flush_on_close(self, stream):
@@ -858,7 +858,7 @@ class MessageHandlerThread(object):
                             ready_future.set_result(res)
                     except Exception as e:
                         err_msg = ('Error calling message '
-                                   'handler for msg:\n {0!s}'.format(msg))
+                                   'handler for msg:\n {0!r}'.format(bytes(msg)))
                         self._logger.error(err_msg, exc_info=True)
                         client_conn.inform(self.log_inform_formatter(
                             'error', 'See device logs:\n' + err_msg, 'root'))
@@ -1024,7 +1024,7 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
 
         """
         # log messages received so that no one else has to
-        self._logger.debug('received: {0!s}'.format(msg))
+        self._logger.debug('received: {0!r}'.format(bytes(msg)))
 
         if msg.mtype == msg.REQUEST:
             return self.handle_request(client_conn, msg)
-- 
2.43.0


From 9e78dd0a87d313382cdb593fd9bdaa60bbe61535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 07/60] fix: sampling strategies refuse NaN period and
 threshold

---
 katcp/sampling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 14fed93..85556a9 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -331,7 +331,7 @@ class SampleDifferential(SampleStrategy):
                 raise ValueError("The diff amount must be a positive integer.")
         elif sensor._sensor_type == Sensor.FLOAT:
             self._threshold = float(params[0])
-            if self._threshold <= 0:
+            if not self._threshold > 0:  # Also refuses NaN
                 raise ValueError("The diff amount must be a positive float.")
         else:
             # _sensor_type must be Sensor.TIMESTAMP
@@ -340,7 +340,7 @@ class SampleDifferential(SampleStrategy):
             # the timestamp sensor type should be in milliseconds. For now, just
             # ignore this eventuality, and fix if anyone actually needs this
             self._threshold = float(params[0])
-            if self._threshold <= 0:
+            if not self._threshold > 0:  # Also refuses NaN
                 raise ValueError("The diff amount must be a positive number "
                                  "of seconds.")
         self._lastStatus = None
@@ -369,7 +369,7 @@ class SamplePeriod(SampleStrategy):
                              "Parameters passed: %r, in pid : %s"
                              % (params, os.getpid()))
         period = float(params[0])
-        if period <= 0:
+        if not period > 0:  # Also refuses NaN
             raise ValueError("The period must be a positive float in seconds. "
                              "Parameters passed: %r, in pid : %s"
                              % (params, os.getpid()))
-- 
2.43.0


From d8025ef2b839be01377068bcb64cb3f33f942365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 08/60] fix: device logger supports level 'all' and text that
 is no valid format

---
 katcp/server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index 478eda3..da0d6e6 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2536,6 +2536,7 @@ class DeviceLogger(object):
 
     ## @brief Map of Python logging level to corresponding to KATCP levels
     PYTHON_LEVEL = {
+        ALL: 0,
         TRACE: 0,
         DEBUG: logging.DEBUG,
         INFO: logging.INFO,
@@ -2655,8 +2656,9 @@ class DeviceLogger(object):
                 name = self._root_logger_name
             try:
                 inform_msg = msg % args
-            except TypeError:
-                # Catch the "not enough arguments for format string" exception.
+            except (TypeError, ValueError, KeyError):
+                # Catch the "not enough arguments for format string" and
+                # "incomplete format" exceptions.
                 inform_msg = "{} {}".format(
                     msg,
                     args if args else '').strip()
-- 
2.43.0


From ff11d9b67c69229072159cab4f54ab4b84f64e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 09/60] fix: deregistering a sensor deactivates exactly the
 aggregates that depend on it

---
 katcp/sensortree.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/katcp/sensortree.py b/katcp/sensortree.py
index aa08f4f..78ca79e 100644
--- a/katcp/sensortree.py
+++ b/katcp/sensortree.py
@@ -450,24 +450,25 @@ class AggregateSensorTree(GenericSensorTree):
                              " tree" % child_name)
         child = self._registered_sensors[child_name]
         del self._registered_sensors[child_name]
-        try:
-            parents = self.parents(child)
-            for parent in parents:
-                if parent in self._incomplete_aggregates:
-                    (rule, names, sensors) = self._incomplete_aggregates[parent]
-                    names.add(child_name)
-                else:
-                    (rule, sensors) = self._aggregates[parent]
-                    names = set()
-                    names.add(child_name)
+        # Delayed aggregates that were still waiting for other sensors now
+        # have to wait for this one too
+        for _rule, names, sensors in self._incomplete_aggregates.values():
+            if child in sensors:
                 sensors.discard(child)
-                self._incomplete_aggregates[parent] = (rule, names, sensors)
+                names.add(child_name)
+        parents = self.parents(child) if child in self else ()
+        for parent in parents:
+            (rule, children) = self._aggregates[parent]
+            sensors = set(children)
+            sensors.discard(child)
+            self._aggregates[parent] = (rule, sensors)
+            try:
                 self.remove_links(parent, [child])
-                self.remove(parent)
-                if parent.stype == 'bool':
-                    parent.set_value(False)
-        except ValueError:
-            pass
+            except Exception:
+                # The rule may not be able to do without the child
+                pass
+            self.remove(parent)
+            self._incomplete_aggregates[parent] = (rule, set([child_name]), sensors)
 
     def _child_from_reference(self, reference):
         """Returns the child sensor from its reference.
@@ -499,7 +500,7 @@ class AggregateSensorTree(GenericSensorTree):
         if parent not in self._aggregates:
             raise ValueError("Sensor %r does not have an aggregate rule "
                              "associated" % parent)
-        children = self.children(parent)
+        children = self.children(parent) if parent in self else set()
         try:
             self.remove_links(parent, children)
         except Exception:
-- 
2.43.0


From f7bbe8c68748eba9c59588b9ec4c5039dd41d547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 10/60] fix: a request that cannot be sent is completed with a
 reply message

---
 katcp/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/client.py b/katcp/client.py
index 01e55ad..05d4720 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1285,7 +1285,7 @@ class AsyncClient(DeviceClient):
         try:
             self.send_request(msg)
         except KatcpClientError as e:
-            error_reply = Message.request(msg.name, "fail", str(e))
+            error_reply = Message.reply(msg.name, "fail", str(e))
             error_reply.mid = mid
             self.handle_reply(error_reply)
 
-- 
2.43.0


From 6ac36bb062cbf2378a75dde9569e8699a07295df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 11/60] fix: replies and informs without mid only concern
 requests sent without mid

---
 katcp/client.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index 05d4720..3cd1910 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1234,13 +1234,15 @@ class AsyncClient(DeviceClient):
             return None, None, None, None, None
 
     def _msg_id_for_name(self, msg_name):
-        """Find the msg_id for a given request name.
+        """Find the msg_id of the oldest request of a given name sent without a mid.
 
-        Return None if no message id exists.
+        Replies and informs without a mid can't belong to requests that were
+        sent with one. Return None if there is no such request.
 
         """
-        if msg_name in self._async_id_stack and self._async_id_stack[msg_name]:
-            return self._async_id_stack[msg_name][0]
+        for msg_id in self._async_id_stack.get(msg_name, ()):
+            if msg_id in self._async_queue and self._async_queue[msg_id][0].mid is None:
+                return msg_id
 
     @make_threadsafe
     def callback_request(self, msg, reply_cb=None, inform_cb=None,
-- 
2.43.0


From a8c454747b151b32122621488a470a73bdc72e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 12/60] fix: a client stopped while connecting closes the new
 connection

---
 katcp/client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/katcp/client.py b/katcp/client.py
index 3cd1910..d103434 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -454,8 +454,13 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         stream = None
         try:
             host, port = self._bindaddr
-            stream = self._stream = yield self._tcp_client.connect(
+            new_stream = yield self._tcp_client.connect(
                 host, port, max_buffer_size=self.MAX_MSG_SIZE)
+            if not self._running.isSet():
+                # Stopped while busy connecting, nobody would close the stream
+                new_stream.close()
+                return
+            stream = self._stream = new_stream
             stream.set_close_callback(partial(self._stream_closed_callback,
                                               stream))
             # our message packets are small, don't delay sending them.
-- 
2.43.0


From 17256d7f26a438b0c2135433589ed807f5803695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 13/60] fix: AsyncCallbackEvent.clear() passes False to the
 callback

---
 katcp/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index 8f73072..484520a 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -1719,7 +1719,7 @@ class AsyncCallbackEvent(AsyncEvent):
     def clear(self):
         super(AsyncCallbackEvent, self).clear()
         try:
-            self._callback(True)
+            self._callback(False)
         except Exception:
             logger.exception('Unhandled exception calling event change callback')
 
-- 
2.43.0


From 5409e6b6c68f52b3e0224c1ce8f3945218bc3723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 14/60] fix: until_any() does not prevent other callbacks of a
 resolved future from running

---
 katcp/core.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/katcp/core.py b/katcp/core.py
index 484520a..8087e6a 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -1909,12 +1909,11 @@ def until_any(*futures, **kwargs):
             # memory leak where one of the futures resolves quickly, particularly when
             # used together with AsyncState.until_state(). Also addresses Jira issue
             # CM-593
+            # The list is replaced rather than modified since done_future (or another
+            # future) may be busy iterating over it, and would skip other callbacks.
             for f in futures:
-                if f._callbacks:
-                    try:
-                        f._callbacks.remove(handle_done)
-                    except ValueError:
-                        pass
+                if f._callbacks and handle_done in f._callbacks:
+                    f._callbacks = [cb for cb in f._callbacks if cb != handle_done]
 
     for f in futures:
         f.add_done_callback(handle_done)
-- 
2.43.0


From 06e14bc33663a86401eb8ac886363ee8eddfb913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 15/60] fix: until_some() resolves at once when no future needs
 to be done

---
 katcp/core.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/katcp/core.py b/katcp/core.py
index 8087e6a..772d018 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -2021,11 +2021,9 @@ def until_some(*args, **kwargs):
     wait_iterator = tornado.gen.WaitIterator(*args, **kwargs)
     maybe_timeout = future_timeout_manager(timeout)
     results = []
-    while not wait_iterator.done():
+    while len(results) < done_at_least and not wait_iterator.done():
         result = yield maybe_timeout(wait_iterator.next())
         results.append((wait_iterator.current_index, result))
-        if len(results) >= done_at_least:
-            break
     raise tornado.gen.Return(results)
 
 
-- 
2.43.0


From d974473307758bfe1563a5810bb9a0bfad41199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 16/60] fix: a modified sensor or request gets a new object and
 is rolled back with a failed inspection

---
 katcp/inspecting_client.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 4de6faa..a617426 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -553,10 +553,11 @@ class InspectingClientAsync(object):
             index[name] = data
         else:
             orig_data = index[name]
-            for key, value in data.items():
-                if orig_data.get(key) != value:
-                    orig_data[key] = value
-                    orig_data['_changed'] = True
+            if any(orig_data.get(key) != value for key, value in data.items()):
+                # Replace rather than update the entry: the object made from
+                # the old data is stale, and inspect() may need to restore the
+                # old entry
+                index[name] = dict(data, _changed=True)
 
     def handle_sensor_value(self):
         """Handle #sensor-value informs just like #sensor-status informs"""
@@ -1083,8 +1084,7 @@ class InspectingClientAsync(object):
         # Check the keys that was not added now or not lined up for removal,
         # and see if they changed.
         for key in updated_keys.difference(added_keys.union(removed_keys)):
-            if item_index[key].get('_changed'):
-                item_index[key]['_changed'] = False
+            if item_index[key].pop('_changed', False):
                 removed_keys.add(key)
                 added_keys.add(key)
 
-- 
2.43.0


From 2847cb5e79fc8d770f3f5e8ae08f6e958c183306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 17/60] fix: an inspecting client notices a reconnection during
 a state callback

---
 katcp/inspecting_client.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index a617426..75c2162 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -224,6 +224,7 @@ class InspectingClientAsync(object):
         self._connected = katcp.core.AsyncEvent()
         self._disconnected = katcp.core.AsyncEvent()
         self._interface_changed = katcp.core.AsyncEvent()
+        self._disconnect_count = 0
         # Set the default behaviour for update.
         self._update_on_lookup = True
         self._cb_register = {}  # Register to hold the possible callbacks.
@@ -411,6 +412,9 @@ class InspectingClientAsync(object):
                                        model_changed=False, data_synced=False)
                 yield until_any(self.katcp_client.until_protocol(),
                                 self._disconnected.until_set())
+                # The connection may be lost and re-established while user
+                # callbacks run, in which case the device may have changed
+                disconnect_count = self._disconnect_count
                 # TODO NM 2016-10-21 The naming of this attribute is incredibly
                 # confusing, we need to think about what "initial_inspection" is
                 # and how it is supposed to be handled
@@ -427,7 +431,8 @@ class InspectingClientAsync(object):
                         model_changes=model_changes)
                 else:
                     self.initial_inspection = True
-                if not is_connected():
+                if not is_connected() or (
+                        disconnect_count != self._disconnect_count):
                     continue
 
                 # TODO NM 2017-07-21 for CB-1466 (async dev handler) we need to
@@ -447,6 +452,8 @@ class InspectingClientAsync(object):
                         'Succesfully resynced with {} after failure'
                         .format(self.bind_address_string))
                     last_sync_failed = False
+                if disconnect_count != self._disconnect_count:
+                    continue
                 yield until_any(self._interface_changed.until_set(),
                                 self._disconnected.until_set())
                 self._logger.debug('in _state_loop: interface_changed=%s,'
@@ -980,6 +987,7 @@ class InspectingClientAsync(object):
             self._connected.set()
         else:
             self._connected.clear()
+            self._disconnect_count += 1
             self._disconnected.set()
 
     def _cb_inform_sensor_status(self, msg):
-- 
2.43.0


From db8402c4ba6f686e1ac1601098ece37a491152ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 18/60] fix: looking up an unknown request returns None for
 devices with request timeout hints

---
 katcp/inspecting_client.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 75c2162..78b0528 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -734,9 +734,11 @@ class InspectingClientAsync(object):
         reply, informs = yield self.katcp_client.future_request(
             req_msg, timeout=timeout)
         if not reply.reply_ok():
-            raise SyncError('Error retrieving request timeout hints: "{}"\n'
-                            'in reply to request {}, continuing with sync'
-                            .format(reply, req_msg))
+            # As for ?help, an unknown request is not an error, it has no hint
+            if name is None or b'Unknown request' not in reply.arguments[1]:
+                raise SyncError('Error retrieving request timeout hints: "{}"\n'
+                                'in reply to request {}, continuing with sync'
+                                .format(reply, req_msg))
         for inform in informs:
             request_name = ensure_native_str(inform.arguments[0])
             timeout_hint = float(inform.arguments[1])
-- 
2.43.0


From 0c50089e3f86898ccd849f5ec9fa445ace474e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 19/60] fix: readings of a sensor that is being looked up stay
 in order

---
 katcp/inspecting_client.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 78b0528..831a0e1 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -18,6 +18,7 @@ from collections import defaultdict, namedtuple
 import tornado
 
 from tornado.gen import Return, maybe_future
+from tornado.locks import Lock
 from future.utils import native_str_to_bytes
 
 import katcp.core
@@ -221,6 +222,8 @@ class InspectingClientAsync(object):
         self._requests_index = {}
         self._sensors_index = {}
         self._sensor_object_cache = {}
+        # Keeps the updates of each sensor in order while it is looked up
+        self._sensor_update_locks = defaultdict(Lock)
         self._connected = katcp.core.AsyncEvent()
         self._disconnected = katcp.core.AsyncEvent()
         self._interface_changed = katcp.core.AsyncEvent()
@@ -967,21 +970,22 @@ class InspectingClientAsync(object):
 
     @tornado.gen.coroutine
     def update_sensor(self, name, timestamp, status, value):
-        sensor = self._sensor_object_cache.get(name)
-        # TODO (NM) Performance improvement idea: Make this a normal function
-        # that only handles the cached sensor object case (should be the common
-        # case). If cached sensor is not found, kick off a coroutine that
-        # handles the future_get_sensor case.
-        if not sensor:
-            sensor = yield self.future_get_sensor(name)
-        if sensor:
-            # TODO (NM) Performance idea: probably we can cache katcp_major at
-            # sync time?
-            katcp_major = self.katcp_client.protocol_flags.major
-            sensor.set_formatted(timestamp, status, value, katcp_major)
-        else:
-            self._logger.error('Received update for "%s", but could not create'
-                               ' sensor object.' % name)
+        with (yield self._sensor_update_locks[name].acquire()):
+            sensor = self._sensor_object_cache.get(name)
+            # TODO (NM) Performance improvement idea: Make this a normal function
+            # that only handles the cached sensor object case (should be the common
+            # case). If cached sensor is not found, kick off a coroutine that
+            # handles the future_get_sensor case.
+            if not sensor:
+                sensor = yield self.future_get_sensor(name)
+            if sensor:
+                # TODO (NM) Performance idea: probably we can cache katcp_major at
+                # sync time?
+                katcp_major = self.katcp_client.protocol_flags.major
+                sensor.set_formatted(timestamp, status, value, katcp_major)
+            else:
+                self._logger.error('Received update for "%s", but could not create'
+                                   ' sensor object.' % name)
 
     def _cb_connection_state(self, connected):
         if connected:
-- 
2.43.0


From 7c60af61d2b2c4457f83b6e680a31eb249323d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 20/60] fix: the resync delay is reset after a successful sync

---
 katcp/inspecting_client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 831a0e1..49df9a0 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -455,6 +455,7 @@ class InspectingClientAsync(object):
                         'Succesfully resynced with {} after failure'
                         .format(self.bind_address_string))
                     last_sync_failed = False
+                self.resync_delay.success()
                 if disconnect_count != self._disconnect_count:
                     continue
                 yield until_any(self._interface_changed.until_set(),
@@ -490,8 +491,6 @@ class InspectingClientAsync(object):
                 self.katcp_client.disconnect()
                 yield katcp.core.until_later(retry_wait_time)
                 continue
-            else:
-                self.resync_delay.success()
         try:
             self._logger.debug('{}: Sending final state - loop ended'
                                .format(self.bind_address_string))
-- 
2.43.0


From ae049e195ab074e75b5efb47a25fc882d5a24e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 21/60] fix: normalised strategy parameters keep integers
 integers

---
 katcp/resource.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/katcp/resource.py b/katcp/resource.py
index 1a2ee2c..9b6ba18 100644
--- a/katcp/resource.py
+++ b/katcp/resource.py
@@ -79,12 +79,16 @@ def normalize_strategy_parameters(params):
 
     """
     def fixup_numbers(val):
-        try:
-            # See if it is a number
-            return str(float(val))
-        except ValueError:
-            # ok, it is not a number we know of, perhaps a string
-            return str(val)
+        for number_type in (int, float):
+            # Integers must stay integers, the parameters of some strategies have
+            # the type of the sensor
+            try:
+                # See if it is a number
+                return str(number_type(str(val)))
+            except ValueError:
+                pass
+        # ok, it is not a number we know of, perhaps a string
+        return str(val)
     if isinstance(params, basestring):
         params = params.split(' ')
     # No number
-- 
2.43.0


From 3b0ba55db7cb6cb5649bdc12ef6862c20e5afb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 22/60] fix: a strategy or listener changed through the sensor
 object persists when the sensor comes back

---
 katcp/resource_client.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 7c046ec..a17f3aa 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -734,8 +734,21 @@ class KATCPClientResource(resource.KATCPResource):
         for s_name in sensor_keys:
             s_name_escaped = resource.escape_name(s_name)
             if s_name_escaped in self.sensor:
-                dict.pop(self.sensor, s_name_escaped)
+                s_obj = dict.pop(self.sensor, s_name_escaped)
                 removed_names.append(s_name_escaped)
+                # Should the sensor come back it must get what it has now, which
+                # may have been changed or removed using the sensor object
+                if s_name_escaped in self._sensor_strategy_cache:
+                    strategy = s_obj.sampling_strategy
+                    if strategy == resource.normalize_strategy_parameters('none'):
+                        self._sensor_strategy_cache.pop(s_name_escaped)
+                    else:
+                        self._sensor_strategy_cache[s_name_escaped] = strategy
+                if s_name_escaped in self._sensor_listener_cache:
+                    self._sensor_listener_cache[s_name_escaped] = [
+                        listener for listener
+                        in self._sensor_listener_cache[s_name_escaped]
+                        if s_obj.is_listener(listener)]
 
         if self.parent:
             self.parent._child_remove_sensors(self, removed_names)
-- 
2.43.0


From 12d6314c696f1b2e4e3b19bfea54c7d652d9c775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:44 +0000
Subject: [PATCH 23/60] fix: reapplying strategies uses the current ones

---
 katcp/resource_client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index a17f3aa..fe63636 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -913,9 +913,13 @@ class KATCPClientResourceSensorsManager(object):
     def reapply_sampling_strategies(self):
         """Reapply all sensor strategies using cached values"""
         check_sensor = self._inspecting_client.future_check_sensor
-        for sensor_name, strategy in list(self._strategy_cache.items()):
+        for sensor_name in list(self._strategy_cache.keys()):
             try:
                 sensor_exists = yield check_sensor(sensor_name)
+                # It may have been replaced or dropped while waiting
+                strategy = self._strategy_cache.get(sensor_name)
+                if strategy is None:
+                    continue
                 if not sensor_exists:
                     self._logger.warn('Did not set strategy for non-existing sensor {}'
                                       .format(sensor_name))
-- 
2.43.0


From fd91ecb417be5ef3ac4146c768f2195d7a2f108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 24/60] fix: listeners set before a sensor exists get its first
 readings

---
 katcp/resource_client.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index fe63636..07ef745 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -699,9 +699,22 @@ class KATCPClientResource(resource.KATCPResource):
         sensor_instances = yield sensor_instance_fut
         # Store KATCPSensor instances in self.sensor
         added_names = []
+        # First register all listeners, setting a strategy results in a reading
         for s_name, s_obj in list(sensor_instances.items()):
             s_name_escaped = resource.escape_name(s_name)
             self._sensor[s_name_escaped] = s_obj
+            preset_listeners = self._sensor_listener_cache.get(s_name_escaped)
+            if preset_listeners:
+                try:
+                    for listener in preset_listeners:
+                        s_obj.register_listener(listener, reading=True)
+                except Exception:
+                    self._logger.exception(
+                        'Exception trying to pre-set sensor listeners for sensor {}'
+                        .format(s_name))
+
+        for s_name, s_obj in list(sensor_instances.items()):
+            s_name_escaped = resource.escape_name(s_name)
             preset_strategy = self._sensor_strategy_cache.get(s_name_escaped)
             if preset_strategy:
                 self._logger.debug('Setting preset strategy for sensor {} to {!r}'
@@ -712,15 +725,6 @@ class KATCPClientResource(resource.KATCPResource):
                     self._logger.exception(
                         'Exception trying to pre-set sensor strategy for sensor {}'
                         .format(s_name))
-            preset_listeners = self._sensor_listener_cache.get(s_name_escaped)
-            if preset_listeners:
-                try:
-                    for listener in preset_listeners:
-                        s_obj.register_listener(listener, reading=True)
-                except Exception:
-                    self._logger.exception(
-                        'Exception trying to pre-set sensor listeners for sensor {}'
-                        .format(s_name))
 
             added_names.append(s_name_escaped)
 
-- 
2.43.0


From 0b9e99dbe9c6dc8b67e3480b76a4ae39b09f2d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:21 +0000
Subject: [PATCH 25/60] fix: items found by a lookup are announced with the
 next inspection

---
 katcp/inspecting_client.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 49df9a0..db60557 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -221,6 +221,10 @@ class InspectingClientAsync(object):
         self.initial_inspection = bool(initial_inspection)
         self._requests_index = {}
         self._sensors_index = {}
+        # Entries of the indices as of the last inspect(). The indices may
+        # change in between if a request or sensor is looked up by name.
+        self._requests_inspected = {}
+        self._sensors_inspected = {}
         self._sensor_object_cache = {}
         # Keeps the updates of each sensor in order while it is looked up
         self._sensor_update_locks = defaultdict(Lock)
@@ -610,10 +614,8 @@ class InspectingClientAsync(object):
         sensor_index_before = copy.copy(self._sensors_index)
         request_index_before = copy.copy(self._requests_index)
         try:
-            request_changes = yield self.inspect_requests(
-                timeout=timeout_manager.remaining())
-            sensor_changes = yield self.inspect_sensors(
-                timeout=timeout_manager.remaining())
+            yield self.inspect_requests(timeout=timeout_manager.remaining())
+            yield self.inspect_sensors(timeout=timeout_manager.remaining())
         except Exception:
             # Ensure atomicity of sensor and request updates ; if the one
             # fails, the other should act as if it has failed too.
@@ -621,6 +623,13 @@ class InspectingClientAsync(object):
             self._requests_index = request_index_before
             raise
 
+        request_changes = self._changes_since(
+            self._requests_inspected, self._requests_index)
+        sensor_changes = self._changes_since(
+            self._sensors_inspected, self._sensors_index)
+        self._requests_inspected = copy.copy(self._requests_index)
+        self._sensors_inspected = copy.copy(self._sensors_index)
+
         model_changes = AttrDict()
         if request_changes:
             model_changes.requests = request_changes
@@ -1063,6 +1072,15 @@ class InspectingClientAsync(object):
         msg = katcp.Message.request(request, *args, mid=mid)
         return self.katcp_client.future_request(msg, timeout, use_mid)
 
+    def _changes_since(self, index_before, index):
+        """Changes of an index, modified items are in both `added` and `removed`"""
+        added = set(name for name, item in index.items()
+                    if index_before.get(name) is not item)
+        removed = set(name for name, item in index_before.items()
+                      if index.get(name) is not item)
+        if added or removed:
+            return AttrDict(added=added, removed=removed)
+
     def _difference(self, original_keys, updated_keys, name, item_index):
         """Calculate difference between the original and updated sets of keys.
 
-- 
2.43.0


From bcc8f3a9a593da33cdc12e9359e5e8dfe2b68e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:47 +0000
Subject: [PATCH 26/60] fix: waiting for a sensor with a zero timeout ends at
 once, and is done only once

---
 katcp/resource.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/katcp/resource.py b/katcp/resource.py
index 9b6ba18..b3db6fc 100644
--- a/katcp/resource.py
+++ b/katcp/resource.py
@@ -943,27 +943,37 @@ class KATCPSensor(with_metaclass(abc.ABCMeta, object)):
             raise KATCPSensorError(
                 'Cannot wait on a sensor that does not have a strategy set')
 
+        def set_result():
+            # Try and be idempotent if called multiple times after the
+            # condition is matched. This should not happen unless the
+            # sensor object is being updated in a thread outside of the
+            # ioloop.
+            if not f.done():
+                f.set_result(True)
+
         def handle_update(sensor, reading):
             # This handler is called whenever a sensor update is received
             try:
                 assert sensor is self
                 if condition_test(reading):
                     self.unregister_listener(handle_update)
-                    # Try and be idempotent if called multiple times after the
-                    # condition is matched. This should not happen unless the
-                    # sensor object is being updated in a thread outside of the
-                    # ioloop.
-                    if not f.done():
-                        ioloop.add_callback(f.set_result, True)
+                    ioloop.add_callback(set_result)
             except Exception:
-                f.set_exc_info(sys.exc_info())
                 self.unregister_listener(handle_update)
+                if not f.done():
+                    f.set_exc_info(sys.exc_info())
 
         self.register_listener(handle_update, reading=True)
         # Handle case where sensor is already at the desired value
-        ioloop.add_callback(handle_update, self, self._reading)
+        try:
+            if condition_test(self._reading):
+                self.unregister_listener(handle_update)
+                set_result()
+        except Exception:
+            self.unregister_listener(handle_update)
+            f.set_exc_info(sys.exc_info())
 
-        if timeout:
+        if timeout is not None:
             to = ioloop.time() + timeout
             timeout_f = with_timeout(to, f)
             # Make sure we stop listening if the wait times out to prevent a
-- 
2.43.0


From d6bd33b2c67ddb15c1a105128d1451d327d7b6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:47 +0000
Subject: [PATCH 27/60] fix: a wait for a group ends at its timeout without a
 grace period too

---
 katcp/resource_client.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 07ef745..238294c 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1246,13 +1246,12 @@ class ClientGroup(object):
                                 'if outside range [0, 1]' % (quorum,))
         elif isinstance(quorum, float):
             quorum = int(math.ceil(quorum * len(self.clients)))
-        if timeout and max_grace_period:
+        grace_period = max_grace_period or 0
+        initial_timeout = timeout
+        if timeout is not None:
             # Avoid having a grace period longer than or equal to timeout
-            grace_period = min(max_grace_period, timeout / 2.)
+            grace_period = min(grace_period, timeout / 2.)
             initial_timeout = timeout - grace_period
-        else:
-            grace_period = max_grace_period
-            initial_timeout = timeout
         # Build dict of futures instead of list as this will be easier to debug
         futures = {}
         for client in self.clients:
-- 
2.43.0


From 579b1ecbbf1c2c2e0793da142d1480090b3fc9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:47 +0000
Subject: [PATCH 28/60] fix: waiting for an unknown sensor raises
 KATCPSensorError

---
 katcp/resource.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/katcp/resource.py b/katcp/resource.py
index b3db6fc..5667243 100644
--- a/katcp/resource.py
+++ b/katcp/resource.py
@@ -224,7 +224,11 @@ class KATCPResource(with_metaclass(abc.ABCMeta, object)):
 
         """
         sensor_name = escape_name(sensor_name)
-        sensor = self.sensor[sensor_name]
+        try:
+            sensor = self.sensor[sensor_name]
+        except KeyError:
+            raise KATCPSensorError('Cannot wait on unknown sensor {!r}'
+                                   .format(sensor_name))
         try:
             yield sensor.wait(condition_or_value, timeout)
         except tornado.gen.TimeoutError:
-- 
2.43.0


From 7e9d3a22c9d2d8c5e0764393e5e2c3c8399d6f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:47 +0000
Subject: [PATCH 29/60] fix: a group request skips members without the request,
 also if it is named like a dict method

---
 katcp/resource_client.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 238294c..3671d99 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1053,11 +1053,13 @@ class GroupRequest(object):
         none_future = Future()
         none_future.set_result(None)
         for client in self.group.clients:
-            request_method = getattr(client.req, self.name, None)
-            if request_method:
-                result_futures[client.name] = request_method(*args, **kwargs)
-            else:
+            try:
+                # Attribute access would find the methods of dict too
+                request_method = client.req[self.name]
+            except KeyError:
                 result_futures[client.name] = none_future
+            else:
+                result_futures[client.name] = request_method(*args, **kwargs)
 
         results = yield result_futures
         raise Return(GroupResults(results))
-- 
2.43.0


From ff76518ed7cd8ad66fe5b27180c02ea8d2bf8434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:47 +0000
Subject: [PATCH 30/60] fix: groups keep track of the requests of their members
 for all group and member names

---
 katcp/resource_client.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 3671d99..452e7fa 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1390,14 +1390,15 @@ class KATCPClientResourceContainer(resource.KATCPResource):
 
     def _init_groups(self):
         group_configs = self._resources_spec.get('groups', {})
-        groups = AttrDict()
+        self._groups = AttrDict()
         for group_name, group_client_names in list(group_configs.items()):
-            group_clients = tuple(self.children[resource.escape_name(cn)]
-                                  for cn in group_client_names)
-            group = ClientGroup(group_name, group_clients)
-            groups[resource.escape_name(group_name)] = group
+            self._init_group(group_name, group_client_names)
 
-        self._groups = groups
+    def _init_group(self, group_name, group_client_names):
+        group_clients = tuple(self.children[resource.escape_name(cn)]
+                              for cn in group_client_names)
+        group = ClientGroup(group_name, group_clients)
+        self._groups[resource.escape_name(group_name)] = group
 
     def add_group(self, group_name, group_client_names):
         """Add a new :class:`ClientGroup` to container groups member.
@@ -1409,7 +1410,8 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         group_configs = self._resources_spec.get('groups', {})
         group_configs[group_name] = group_client_names
         self._resources_spec['groups'] = group_configs
-        self._init_groups()
+        # The existing groups may be in use, leave them as they are
+        self._init_group(group_name, group_client_names)
 
     def set_ioloop(self, ioloop=None):
         """Set the tornado ioloop to use
@@ -1604,9 +1606,8 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         self._children_dirty = True
 
     def _dirty_groups(self, child):
-        groups_spec = self._resources_spec.get('groups', {})
-        for group_name, group in dict.items(self.groups):
-            if child.name in groups_spec[group_name]:
+        for group in dict.values(self.groups):
+            if child in group.clients:
                 group.client_updated(child)
 
     def __repr__(self):
-- 
2.43.0


From 48f37317ecc54cbf383871052ad04b46b356611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:46 +0000
Subject: [PATCH 31/60] fix: requests and sensors of a container are refreshed
 independently of each other

---
 katcp/resource_client.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 452e7fa..c43de83 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1293,17 +1293,17 @@ class KATCPClientResourceContainer(resource.KATCPResource):
     """
     @property
     def req(self):
-        if self._children_dirty:
+        if self._children_req_dirty:
             self._req = self._create_attrdict_from_children('req')
-            self._children_dirty = False
+            self._children_req_dirty = False
 
         return self._req
 
     @property
     def sensor(self):
-        if self._children_dirty:
+        if self._children_sensor_dirty:
             self._sensor = self._create_attrdict_from_children('sensor')
-            self._children_dirty = False
+            self._children_sensor_dirty = False
 
         return self._sensor
 
@@ -1362,7 +1362,9 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         self._logger = logger
         self._name = resources_spec['name']
         self._description = resources_spec.get('description', '')
-        self._children_dirty = True   # Are we out of sync with the children?
+        # Are we out of sync with the children?
+        self._children_req_dirty = True
+        self._children_sensor_dirty = True
         self._init_resources()
         self._init_groups()
         self.set_ioloop()
@@ -1543,7 +1545,8 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         res = self.client_resource_factory(
                 res_spec, parent=self, logger=self._logger)
         self.children[resource.escape_name(res_name)] = res;
-        self._children_dirty = True
+        self._children_req_dirty = True
+        self._children_sensor_dirty = True
         res.set_ioloop(self.ioloop)
         res.start()
         return res
@@ -1589,21 +1592,21 @@ class KATCPClientResourceContainer(resource.KATCPResource):
 
     def _child_add_requests(self, child, sensor_keys):
         assert resource.escape_name(child.name) in self.children
-        self._children_dirty = True
+        self._children_req_dirty = True
         self._dirty_groups(child)
 
     def _child_remove_requests(self, child, sensor_keys):
         assert resource.escape_name(child.name) in self.children
-        self._children_dirty = True
+        self._children_req_dirty = True
         self._dirty_groups(child)
 
     def _child_add_sensors(self, child, sensor_keys):
         assert resource.escape_name(child.name) in self.children
-        self._children_dirty = True
+        self._children_sensor_dirty = True
 
     def _child_remove_sensors(self, child, sensor_keys):
         assert resource.escape_name(child.name) in self.children
-        self._children_dirty = True
+        self._children_sensor_dirty = True
 
     def _dirty_groups(self, child):
         for group in dict.values(self.groups):
-- 
2.43.0


From dcf6e016dddd931c958b027b011b155191037473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:02 +0000
Subject: [PATCH 32/60] fix: strategies and listeners of a container reach
 sensors and resources with '-' and '.' in their names

---
 katcp/resource_client.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index c43de83..17dd444 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1477,7 +1477,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
             if resource_name not in sensor_dict:
                 sensor_dict[resource_name] = {}
             try:
-                resource_obj = self.children[resource_name]
+                resource_obj = self.children[resource.escape_name(resource_name)]
                 yield resource_obj.set_sampling_strategy(sensor_name, strategy_and_parms)
                 sensor_dict[resource_name][sensor_name] = strategy_and_parms
                 self._logger.debug(
@@ -1493,7 +1493,8 @@ class KATCPClientResourceContainer(resource.KATCPResource):
     @tornado.gen.coroutine
     def set_sampling_strategy(self, sensor_name, strategy_and_parms):
         """Set sampling strategies for the specific sensor - this sensor has to exist"""
-        result_list = yield self.list_sensors(filter="^"+sensor_name+"$") #exact match
+        result_list = yield self.list_sensors(
+            filter="^"+resource.escape_name(sensor_name)+"$") #exact match
         sensor_dict = {}
         for result in result_list:
             sensor_name = result.object.normalised_name
@@ -1501,7 +1502,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
             if resource_name not in sensor_dict:
                 sensor_dict[resource_name] = {}
             try:
-                resource_obj = self.children[resource_name]
+                resource_obj = self.children[resource.escape_name(resource_name)]
                 yield resource_obj.set_sampling_strategy(sensor_name, strategy_and_parms)
                 sensor_dict[resource_name][sensor_name] = strategy_and_parms
                 self._logger.debug(
@@ -1517,7 +1518,8 @@ class KATCPClientResourceContainer(resource.KATCPResource):
     @tornado.gen.coroutine
     def set_sensor_listener(self, sensor_name, listener):
         """Set listener for the specific sensor - this sensor has to exists."""
-        result_list = yield self.list_sensors(filter="^"+sensor_name+"$") #exact match
+        result_list = yield self.list_sensors(
+            filter="^"+resource.escape_name(sensor_name)+"$") #exact match
         sensor_dict = {}
         for result in result_list:
             sensor_name = result.object.normalised_name
@@ -1525,7 +1527,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
             if resource_name not in sensor_dict:
                 sensor_dict[resource_name] = {}
             try:
-                resource_obj = self.children[resource_name]
+                resource_obj = self.children[resource.escape_name(resource_name)]
                 yield resource_obj.set_sensor_listener(sensor_name, listener)
                 sensor_dict[resource_name][sensor_name] = listener
                 self._logger.debug(
-- 
2.43.0


From 040dcf57c81733f0bcdac55ed1f7fdc0277211e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:57 +0000
Subject: [PATCH 33/60] fix: the status filter of list_sensors is a regular
 expression as documented

---
 katcp/resource_client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 17dd444..6ce0fcf 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -84,6 +84,7 @@ def list_sensors(parent_class, sensor_items, filter, strategy, status,
     Rest of parameters as for :meth:`katcp.resource.KATCPResource.list_sensors`
     """
     filter_re = re.compile(filter)
+    status_re = re.compile(status or "")
     found_sensors = []
     none_strat = resource.normalize_strategy_parameters('none')
     sensor_dict = dict(sensor_items)
@@ -106,7 +107,7 @@ def list_sensors(parent_class, sensor_items, filter, strategy, status,
                     prefix = ""
                 else:
                     prefix = sensor_obj.parent_name + "."
-            if not status or (sensor_obj.reading.status in status):
+            if status_re.search(sensor_obj.reading.status):
                 # Only include sensors of the given status
                 if tuple:
                     # (sensor.name, sensor.value, sensor.value_seconds, sensor.type, sensor.units, sensor.update_seconds, sensor.status, strategy_and_params)
-- 
2.43.0


From 6b633fee820e2c0483d2bdde33bd751569dbd2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:17 +0000
Subject: [PATCH 34/60] fix: a managed ioloop that is running is not started
 again

Thread.isAlive() is gone since Python 3.9; the AttributeError was taken for
a missing thread, so a second start() ran and broke the manager.
---
 katcp/ioloop_manager.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/katcp/ioloop_manager.py b/katcp/ioloop_manager.py
index 8f87cdc..a3744ab 100644
--- a/katcp/ioloop_manager.py
+++ b/katcp/ioloop_manager.py
@@ -90,12 +90,9 @@ class IOLoopManager(object):
         with self._start_lock:
             t = threading.Thread(target=run_ioloop)
             t.setDaemon(self._daemonize)
-            try:
-                if self._ioloop_thread.isAlive():
-                    raise RuntimeError('Seems that managed ioloop has already been '
-                                       'started, can only restart after stop()')
-            except AttributeError:
-                pass
+            if self._ioloop_thread is not None and self._ioloop_thread.is_alive():
+                raise RuntimeError('Seems that managed ioloop has already been '
+                                   'started, can only restart after stop()')
             self._ioloop_thread = t
             self._ioloop_thread.start()
 
-- 
2.43.0


From d6f17fd9234d43396369f755205136ffa9ab7c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:00 +0000
Subject: [PATCH 35/60] fix: stop() of a manager whose ioloop is being closed
 does not raise

---
 katcp/ioloop_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/katcp/ioloop_manager.py b/katcp/ioloop_manager.py
index a3744ab..6899a7b 100644
--- a/katcp/ioloop_manager.py
+++ b/katcp/ioloop_manager.py
@@ -161,8 +161,8 @@ class IOLoopManager(object):
         try:
             self._ioloop.add_callback(
                 lambda: gen.chain_future(_stop(), stopped_future))
-        except AttributeError:
-            # Probably we have been shut-down already
+        except (AttributeError, RuntimeError):
+            # Probably we have been shut-down already, or the ioloop is being closed
             pass
 
         return stopped_future
-- 
2.43.0


From 5ace079deee4339309ded3a80c0df277991f11cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:59 +0000
Subject: [PATCH 36/60] fix: a value set by another thread while a sampling
 strategy starts is not missed

---
 katcp/sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 85556a9..cc9ec9a 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -230,8 +230,9 @@ class SampleStrategy(object):
     def attach(self):
         """Attach strategy to its sensor and send initial update."""
         s = self._sensor
+        # Attach before reading, or a value set by another thread in between is missed
+        s.attach(self)
         self.update(s, s.read())
-        self._sensor.attach(self)
 
     def detach(self):
         """Detach strategy from its sensor."""
-- 
2.43.0


From 18b8135bde2ca62fa3c78a1f2e5d507efde7df6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:19 +0000
Subject: [PATCH 37/60] fix: updates queued by other threads are not sent after
 sampling is cancelled

---
 katcp/sampling.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index cc9ec9a..b9d1322 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -56,10 +56,14 @@ def update_in_ioloop(update):
     """
     @wraps(update)
     def wrapped_update(self, sensor, reading):
+        def update_unless_cancelled():
+            if not self._cancelled:
+                update(self, sensor, reading)
+
         if get_thread_ident() == self._ioloop_thread_id:
-            update(self, sensor, reading)
+            update_unless_cancelled()
         else:
-            self.ioloop.add_callback(update, self, sensor, reading)
+            self.ioloop.add_callback(update_unless_cancelled)
 
     return wrapped_update
 
@@ -104,6 +108,9 @@ class SampleStrategy(object):
     OBSERVE_UPDATES = False
     "True if a strategy must be attached to its sensor as an observer"
 
+    # Set by cancel(): updates that other threads had already queued are dropped
+    _cancelled = False
+
     def __init__(self, inform_callback, sensor, *params, **kwargs):
         self.ioloop = kwargs.get('ioloop') or tornado.ioloop.IOLoop.current()
         self._inform_callback = inform_callback
@@ -240,6 +247,7 @@ class SampleStrategy(object):
 
     def cancel(self):
         """Detach strategy from its sensor and cancel ioloop callbacks."""
+        self._cancelled = True
         if self.OBSERVE_UPDATES:
             self.detach()
         self.ioloop.add_callback(self.cancel_timeouts)
-- 
2.43.0


From 02da9e7d3c3346f5d57687c5f0b130db9dd391c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:19 +0000
Subject: [PATCH 38/60] fix: client-list in a handler thread survives clients
 that come and go

---
 katcp/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index da0d6e6..22fea70 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2002,7 +2002,8 @@ class DeviceServer(DeviceServerBase):
         """
         # TODO Get list of ClientConnection* instances and implement a standard
         # 'address-print' method in the ClientConnection class
-        clients = self._client_conns
+        # Copy, since clients may come and go while a handler thread gets here
+        clients = list(self._client_conns)
         num_clients = len(clients)
         for conn in clients:
             addr = conn.address
-- 
2.43.0


From 8a8f05ddaaab640a631100015a972776dc245982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 39/60] fix: a handler thread does not drop requests when over
 300 clients wait for it

---
 katcp/server.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index 22fea70..4473e25 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -826,13 +826,8 @@ class MessageHandlerThread(object):
         *on_message* should not be called again until *ready* has resolved.
 
         """
-        MAX_QUEUE_SIZE = 300
-        if len(self._msg_queue) >= MAX_QUEUE_SIZE:
-            # This should never happen if callers to handle_message wait
-            # for its futures to resolve before sending another message.
-            # NM 2014-10-06: Except when there are multiple clients. Oops.
-            raise RuntimeError('MessageHandlerThread unhandled '
-                               'message queue full, not handling message')
+        # The queue needs no limit of its own: a caller that waits for *ready*
+        # has at most one message in it for each client.
         ready_future = Future()
         self._msg_queue.append((ready_future, client_conn, msg))
         self._wake.set()
-- 
2.43.0


From 1884f154769f95e472d2054df579b4a88da1b6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:52 +0000
Subject: [PATCH 40/60] fix: setting a sensor in a thread does not fail because
 the server is being stopped

---
 katcp/sampling.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index b9d1322..9074e0c 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -63,7 +63,12 @@ def update_in_ioloop(update):
         if get_thread_ident() == self._ioloop_thread_id:
             update_unless_cancelled()
         else:
-            self.ioloop.add_callback(update_unless_cancelled)
+            try:
+                self.ioloop.add_callback(update_unless_cancelled)
+            except RuntimeError:
+                # The ioloop was closed while the sensor was being set
+                if not self._cancelled:
+                    raise
 
     return wrapped_update
 
-- 
2.43.0


From 5712057cf38ead23fedfd47d1e7849ec268d58c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 41/60] fix: a sampling strategy that is started again after
 cancel() sends updates

---
 katcp/sampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 9074e0c..bea91d0 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -266,6 +266,8 @@ class SampleStrategy(object):
         :attr:`_ioloop_thread_id` using `thread.get_ident()`.
 
         """
+        self._cancelled = False
+
         def first_run():
             self._ioloop_thread_id = get_thread_ident()
             if self.OBSERVE_UPDATES:
-- 
2.43.0


From b3dbf0d1b48d609fe0b92b73baa1a084ca73fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:44 +0000
Subject: [PATCH 42/60] fix: threads that read requests or sensors of groups
 and containers at once get all of them

---
 katcp/resource_client.py | 78 ++++++++++++++++++++++++++--------------
 1 file changed, 52 insertions(+), 26 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 6ce0fcf..148a983 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -10,6 +10,7 @@ import logging
 import math
 import re
 import sys
+import threading
 
 from builtins import object
 from concurrent.futures import Future
@@ -1111,6 +1112,8 @@ class ClientGroup(object):
     def __init__(self, name, clients):
         self.name = name
         self._clients_dirty = True
+        # Groups are also read by other threads (ThreadSafeKATCPClientGroupWrapper)
+        self._req_lock = threading.Lock()
         self.clients = tuple(clients)
 
     def __iter__(self):
@@ -1127,24 +1130,33 @@ class ClientGroup(object):
 
     @property
     def req(self):
-        if self._clients_dirty:
-            if any(client.dummy_unknown_requests for client in self.clients):
-                DummyRequest = partial(
-                    resource.KATCPDummyRequest,
-                    {'name':'dummy', 'description': 'No help for dummies',
-                     'timeout_hint': None})
-                self._req = DefaultAttrDict(DummyRequest)
-            else:
-                self._req = AttrDict()
+        with self._req_lock:
+            if self._clients_dirty:
+                # Clear the flag first, a client may be updated while we're busy
+                self._clients_dirty = False
+                try:
+                    self._req = self._create_req_from_clients()
+                except Exception:
+                    self._clients_dirty = True
+                    raise
 
-            for client in self.clients:
-                for name, request in dict.items(client.req):
-                    if name not in self._req:
-                        self._req[name] = GroupRequest(self, name,
-                                                       request.description)
-            self._clients_dirty = False
+            return self._req
 
-        return self._req
+    def _create_req_from_clients(self):
+        if any(client.dummy_unknown_requests for client in self.clients):
+            DummyRequest = partial(
+                resource.KATCPDummyRequest,
+                {'name':'dummy', 'description': 'No help for dummies',
+                 'timeout_hint': None})
+            req = DefaultAttrDict(DummyRequest)
+        else:
+            req = AttrDict()
+
+        for client in self.clients:
+            for name, request in list(dict.items(client.req)):
+                if name not in req:
+                    req[name] = GroupRequest(self, name, request.description)
+        return req
 
     def client_updated(self, client):
         """Called to notify this group that a client has been updated."""
@@ -1294,19 +1306,31 @@ class KATCPClientResourceContainer(resource.KATCPResource):
     """
     @property
     def req(self):
-        if self._children_req_dirty:
-            self._req = self._create_attrdict_from_children('req')
-            self._children_req_dirty = False
+        with self._children_lock:
+            if self._children_req_dirty:
+                # Clear the flag first, a child may change while we're busy
+                self._children_req_dirty = False
+                try:
+                    self._req = self._create_attrdict_from_children('req')
+                except Exception:
+                    self._children_req_dirty = True
+                    raise
 
-        return self._req
+            return self._req
 
     @property
     def sensor(self):
-        if self._children_sensor_dirty:
-            self._sensor = self._create_attrdict_from_children('sensor')
-            self._children_sensor_dirty = False
+        with self._children_lock:
+            if self._children_sensor_dirty:
+                # Clear the flag first, a child may change while we're busy
+                self._children_sensor_dirty = False
+                try:
+                    self._sensor = self._create_attrdict_from_children('sensor')
+                except Exception:
+                    self._children_sensor_dirty = True
+                    raise
 
-        return self._sensor
+            return self._sensor
 
     @property
     def sensors(self):
@@ -1366,6 +1390,8 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         # Are we out of sync with the children?
         self._children_req_dirty = True
         self._children_sensor_dirty = True
+        # Containers are also read by other threads (ThreadSafeKATCPClientResourceWrapper)
+        self._children_lock = threading.Lock()
         self._init_resources()
         self._init_groups()
         self.set_ioloop()
@@ -1556,9 +1582,9 @@ class KATCPClientResourceContainer(resource.KATCPResource):
 
     def _create_attrdict_from_children(self, attr):
         attrdict = AttrDict()
-        for child_name, child_resource in dict.items(self.children):
+        for child_name, child_resource in list(dict.items(self.children)):
             prefix = resource.escape_name(child_name) + '_'
-            for item_name, item in dict.items(getattr(child_resource, attr)):
+            for item_name, item in list(dict.items(getattr(child_resource, attr))):
                 # Do not prefix aggregate sensors with "parent_name_"
                 if item_name.startswith("agg_"):
                     full_item_name = item_name
-- 
2.43.0


From cde5762fb7bd2329180762c08f77aac01dd9c90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:44 +0000
Subject: [PATCH 43/60] fix: iterating over a thread-safe wrapper's sensors
 survives changes of the device

---
 katcp/resource_client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 148a983..44361c9 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1669,7 +1669,8 @@ class MappingProxy(Mapping):
         self._wrapper = wrapper
 
     def __iter__(self):
-        return iter(self._mapping)
+        # Iterate over a copy, the ioloop may change the mapping meanwhile
+        return iter(list(self._mapping))
 
     def __len__(self):
         return len(self._mapping)
-- 
2.43.0


From 3a0496cea37e5976fefc0003b81cd1dffc5c06d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:49 +0000
Subject: [PATCH 44/60] fix: a container's waits for all children end only when
 all are in the state at once

---
 katcp/resource_client.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 44361c9..caf1b09 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -30,8 +30,9 @@ from tornado.gen import Return
 
 from katcp import Message, inspecting_client, resource
 from katcp.core import (AsyncCallbackEvent, AsyncEvent, AsyncState, AttrDict,
-                        DefaultAttrDict, LatencyTimer, log_future_exceptions,
-                        steal_docstring_from, until_any, until_some)
+                        DefaultAttrDict, LatencyTimer, future_timeout_manager,
+                        log_future_exceptions, steal_docstring_from, until_any,
+                        until_some)
 # TODO NM 2017-04-13 Importing IOLoopThreadwrapper here for backwards
 # compatibility, user code should be changed to import it from the more logical
 # katcp.ioloop_manager module.
@@ -1462,11 +1463,9 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         for res in dict.values(self.children):
             res.start()
 
-    @tornado.gen.coroutine
     def until_synced(self, timeout=None):
         """Return a tornado Future; resolves when all subordinate clients are synced"""
-        futures = [r.until_synced(timeout) for r in dict.values(self.children)]
-        yield tornado.gen.multi(futures, quiet_exceptions=tornado.gen.TimeoutError)
+        return self._until_all_children(lambda r: r.until_synced(), timeout)
 
     @tornado.gen.coroutine
     def until_not_synced(self, timeout=None):
@@ -1479,12 +1478,19 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         return until_any(*[r.until_state(state) for r in dict.values(self.children)],
                          timeout=timeout)
 
-    @tornado.gen.coroutine
     def until_all_children_in_state(self, state, timeout=None):
         """Return a tornado Future; resolves when all clients are in specified state"""
-        futures = [r.until_state(state, timeout=timeout)
-                   for r in dict.values(self.children)]
-        yield tornado.gen.multi(futures, quiet_exceptions=tornado.gen.TimeoutError)
+        return self._until_all_children(lambda r: r.until_state(state), timeout)
+
+    @tornado.gen.coroutine
+    def _until_all_children(self, until, timeout):
+        maybe_timeout = future_timeout_manager(timeout)
+        while True:
+            futures = [until(r) for r in dict.values(self.children)]
+            if all(f.done() for f in futures):
+                break
+            # A client may leave the state again while others are still waited for
+            yield maybe_timeout(tornado.gen.multi(futures))
 
     @steal_docstring_from(resource.KATCPResource.list_sensors)
     def list_sensors(self, filter="", strategy=False, status="",
-- 
2.43.0


From 0697194ffd22b9b0b2cc6468a96c08275895cf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:14 +0000
Subject: [PATCH 45/60] fix: a message refused because its client is being told
 goodbye does not cut the goodbye off

---
 katcp/server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index 4473e25..60eebd7 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -649,7 +649,9 @@ class KATCPServer(object):
             addr = self.get_address(stream)
             self._logger.warn('Could not send message {0!r} to {1}'
                               .format(bytes(msg), addr), exc_info=True)
-            stream.close(exc_info=True)
+            # A stream that is being flushed is closed once that is done
+            if not stream.KATCPServer_closing:
+                stream.close(exc_info=True)
 
     def flush_on_close(self, stream):
         """Flush tornado iostream write buffer and prevent further writes.
-- 
2.43.0


From 48985e56f37ce82878238b6164433ddfb6ef4b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:42 +0000
Subject: [PATCH 46/60] fix: the fake client really presets the flags of a
 fully featured KATCPv5 server

---
 katcp/fake_clients.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/katcp/fake_clients.py b/katcp/fake_clients.py
index 172be60..6e59e0a 100644
--- a/katcp/fake_clients.py
+++ b/katcp/fake_clients.py
@@ -371,7 +371,8 @@ class FakeAsyncClient(client.AsyncClient):
         self._stream = AttrDict(error=None)
         self._connected.set()
         self.notify_connected(True)
-        self.preset_protocol_flags(ProtocolFlags(5, 0, set('IM')))
+        self.preset_protocol_flags(ProtocolFlags(5, 0, set([
+            ProtocolFlags.MULTI_CLIENT, ProtocolFlags.MESSAGE_IDS])))
 
     def _disconnect(self):
         if self._stream:
-- 
2.43.0


From f5d16c9d465b80548e1958625189239eaab0454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:42 +0000
Subject: [PATCH 47/60] fix: a fake client lists a single sensor asked for by
 name

---
 katcp/fake_clients.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/katcp/fake_clients.py b/katcp/fake_clients.py
index 6e59e0a..a2ff866 100644
--- a/katcp/fake_clients.py
+++ b/katcp/fake_clients.py
@@ -14,6 +14,7 @@ from tornado.concurrent import Future
 from tornado.gen import Return
 
 from katcp import Sensor, client, kattypes, resource, server
+from katcp.compat import ensure_native_str
 from katcp.core import AttrDict, Message, ProtocolFlags, convert_method_name
 
 
@@ -237,7 +238,7 @@ class FakeInspectingClientManager(object):
     def request_sensor_list(self, req, msg):
         """Sensor list"""
         if msg.arguments:
-            name = (msg.arguments[0],)
+            name = ensure_native_str(msg.arguments[0])
             keys = (name, )
             if name not in self.fake_sensor_infos:
                 return ("fail", "Unknown sensor name.")
-- 
2.43.0


From 818187f39e4ecde1bdc023136c43201d7b593cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:17 +0000
Subject: [PATCH 48/60] fix: fake discrete sensors may have their values given
 as text

---
 katcp/fake_clients.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/katcp/fake_clients.py b/katcp/fake_clients.py
index a2ff866..7a32ab3 100644
--- a/katcp/fake_clients.py
+++ b/katcp/fake_clients.py
@@ -272,7 +272,9 @@ class FakeInspectingClientManager(object):
         # Check sensor validity. parse_type() and parse_params should raise if not OK
         for s_name, s_info in sensor_infos.items():
             s_type = Sensor.parse_type(s_info[2])
-            s_params = Sensor.parse_params(s_type, s_info[3:])
+            # The parameters as they will be on the wire
+            wire_params = Message.inform('sensor-list', *s_info[3:]).arguments
+            s_params = Sensor.parse_params(s_type, wire_params)
         self.fake_sensor_infos.update(sensor_infos)
         self._fic._interface_changed.set()
 
-- 
2.43.0


From fe12f53b1deb60a7b2b4933b8761e62e07c4de20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:27 +0000
Subject: [PATCH 49/60] fix: a fake request handler that raises FailReply fails
 the request

---
 katcp/fake_clients.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/katcp/fake_clients.py b/katcp/fake_clients.py
index 7a32ab3..e619ab7 100644
--- a/katcp/fake_clients.py
+++ b/katcp/fake_clients.py
@@ -15,7 +15,7 @@ from tornado.gen import Return
 
 from katcp import Sensor, client, kattypes, resource, server
 from katcp.compat import ensure_native_str
-from katcp.core import AttrDict, Message, ProtocolFlags, convert_method_name
+from katcp.core import AttrDict, FailReply, Message, ProtocolFlags, convert_method_name
 
 
 def fake_KATCP_client_resource_factory(
@@ -410,8 +410,12 @@ class FakeAsyncClient(client.AsyncClient):
 
         if msg.name in self.request_handlers:
             req = FakeClientRequestConnection(self.client_connection, msg)
-            reply_msg = yield tornado.gen.maybe_future(
-                self.request_handlers[msg.name](req, msg))
+            try:
+                reply_msg = yield tornado.gen.maybe_future(
+                    self.request_handlers[msg.name](req, msg))
+            except FailReply as error:
+                # What a real server makes of it
+                reply_msg = Message.reply(msg.name, 'fail', str(error))
             reply_informs = req.informs_sent
         else:
             reply_msg = Message.reply(msg.name, 'ok')
-- 
2.43.0


From df28d9fa35bd20ca069d78504c93b2e369fdebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:27 +0000
Subject: [PATCH 50/60] fix: replies of a fake client carry a message id only
 if the request did

---
 katcp/fake_clients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/katcp/fake_clients.py b/katcp/fake_clients.py
index e619ab7..2c247f8 100644
--- a/katcp/fake_clients.py
+++ b/katcp/fake_clients.py
@@ -406,7 +406,7 @@ class FakeAsyncClient(client.AsyncClient):
             A list of the inform messages received.
 
         """
-        mid = self._get_mid_and_update_msg(msg, use_mid)
+        self._get_mid_and_update_msg(msg, use_mid)
 
         if msg.name in self.request_handlers:
             req = FakeClientRequestConnection(self.client_connection, msg)
@@ -421,5 +421,5 @@ class FakeAsyncClient(client.AsyncClient):
             reply_msg = Message.reply(msg.name, 'ok')
             reply_informs = []
 
-        reply_msg.mid = mid
+        reply_msg.mid = msg.mid
         raise Return((reply_msg, reply_informs))
-- 
2.43.0


From 85351d3021d65a8d974ff7cca69adfd95e7b705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:22 +0000
Subject: [PATCH 51/60] fix: a message line with a raw newline after the name
 is a syntax error

---
 katcp/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index 772d018..3ff287f 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -546,7 +546,7 @@ class MessageParser(object):
 
     ## @brief Regular expression matching name and ID
     NAME_RE = re.compile(
-        br"^(?P<name>[a-zA-Z][a-zA-Z0-9\-]*)(\[(?P<id>[0-9]+)\])?$")
+        br"^(?P<name>[a-zA-Z][a-zA-Z0-9\-]*)(\[(?P<id>[0-9]+)\])?\Z")
 
     def _unescape_match(self, match):
         """Given an re.Match, unescape the escape code it represents."""
-- 
2.43.0


From f12e9a6f688ad3ab211b036b440c7c9826bd79f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:22 +0000
Subject: [PATCH 52/60] fix: a protocol version followed by a newline is not a
 version

---
 katcp/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index 3ff287f..8421ff6 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -653,7 +653,7 @@ class ProtocolFlags(object):
 
     """
     VERSION_RE = re.compile(br"^(?P<major>\d+)\.(?P<minor>\d+)"
-                            br"(-(?P<flags>.*))?$")
+                            br"(-(?P<flags>.*))?\Z")
 
     # flags
 
-- 
2.43.0


From 3ee2d3164949305075ce7bf9e22c5e0cb92eb7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:22 +0000
Subject: [PATCH 53/60] fix: v4 servers report sampling periods as set, not a
 millisecond less

---
 katcp/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index 60eebd7..81fb409 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2367,7 +2367,7 @@ class DeviceServer(DeviceServerBase):
         if katcp_version < SEC_TS_KATCP_MAJOR and strategy == b'period':
             # Another slightly nasty hack, but since period is the only
             # v4 strategy involving timestamps it's not _too_ nasty :)
-            params = [int(float(params[0]) * SEC_TO_MS_FAC)] + params[1:]
+            params = [int(round(float(params[0]) * SEC_TO_MS_FAC))] + params[1:]
 
         # Let the ioloop run so that the #sensor-status inform is sent before
         # the reply. Not strictly necessary, but a number of tests depend on
-- 
2.43.0


From d5405cf19c7849be03a77d75a576cacb7b7a8516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:28 +0000
Subject: [PATCH 54/60] fix: BlockingTestClient: a '%' in an expected value
 broke the sensor assertions

---
 katcp/testutils.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/katcp/testutils.py b/katcp/testutils.py
index 83ed6a6..7d96be5 100644
--- a/katcp/testutils.py
+++ b/katcp/testutils.py
@@ -420,8 +420,7 @@ class BlockingTestClient(client.BlockingClient):
                   (sensorname, expected, places_msg)
 
         got, got_status, _timestamp = self.get_sensor(sensorname, sensortype)
-        if '%r' in msg:
-            msg = msg % got
+        msg = msg.replace('%r', repr(got))
 
         if sensortype == float:
             self.test.assertAlmostEqual(got, expected, places, msg)
@@ -454,8 +453,7 @@ class BlockingTestClient(client.BlockingClient):
 
         got_status = self.get_sensor_status(sensorname)
 
-        if '%r' in msg:
-            msg = msg % got_status
+        msg = msg.replace('%r', repr(got_status))
 
         self.test.assertEqual(got_status, expected_status, msg)
 
@@ -487,8 +485,7 @@ class BlockingTestClient(client.BlockingClient):
                   " value%s." % (sensorname, places_msg)
 
         got = self.get_sensor_value(sensorname, sensortype)
-        if '%r' in msg:
-            msg = msg % got
+        msg = msg.replace('%r', repr(got))
 
         if sensortype == float:
             self.test.assertNotAlmostEqual(got, expected, places, msg)
-- 
2.43.0


From 7467479ba53ebca900326bd6490517e82f432565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:28 +0000
Subject: [PATCH 55/60] fix: test_sensor_list: bring the received float
 parameters to the common format too

---
 katcp/testutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/testutils.py b/katcp/testutils.py
index 7d96be5..ddc10bf 100644
--- a/katcp/testutils.py
+++ b/katcp/testutils.py
@@ -640,7 +640,7 @@ class BlockingTestClient(client.BlockingClient):
         def sensortuple(name, description, units, stype, *params):
             # ensure float params reduced to the same format
             native_str_params = []
-            if stype == "float":
+            if ensure_native_str(stype) == "float":
                 params = ["%r" % float(p) for p in params]
             for param in params:
                 if is_bytes(param):
-- 
2.43.0


From 94f6db56b48a0a78863634efdc4b6b6ebfb779c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:28 +0000
Subject: [PATCH 56/60] fix: test_help: full descriptions never matched because
 they were not encoded

---
 katcp/testutils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/katcp/testutils.py b/katcp/testutils.py
index ddc10bf..706ce6a 100644
--- a/katcp/testutils.py
+++ b/katcp/testutils.py
@@ -713,14 +713,15 @@ class BlockingTestClient(client.BlockingClient):
         got_requests = [tuple(m.arguments) for m in informs]
 
         if descriptions:
+            expected_requests = [
+                (native_str_to_bytes(name), native_str_to_bytes(desc))
+                for (name, desc) in expected_requests
+            ]
             if not full_descriptions:
                 got_requests = [(name, desc.split(b'\n')[0])
                                 for (name, desc) in got_requests]
-                expected_requests = [
-                    (native_str_to_bytes(name),
-                     native_str_to_bytes(desc).split(b"\n")[0])
-                    for (name, desc) in expected_requests
-                ]
+                expected_requests = [(name, desc.split(b'\n')[0])
+                                     for (name, desc) in expected_requests]
         else:
             got_requests = [name for (name, desc) in got_requests]
             expected_requests = [native_str_to_bytes(name) for name in expected_requests]
-- 
2.43.0


From ff6edd34b554dbc415434023ee2944fec0b5cb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:28 +0000
Subject: [PATCH 57/60] fix: MessageRecorder: whitelist takes precedence over
 blacklist, a regex does not disable it

---
 katcp/testutils.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/katcp/testutils.py b/katcp/testutils.py
index 706ce6a..87a9947 100644
--- a/katcp/testutils.py
+++ b/katcp/testutils.py
@@ -186,15 +186,13 @@ class MessageRecorder(object):
             self.msg_received.clear()
 
     def _record_predicate(self, msg):
-        if self.whitelist and msg.name not in self.whitelist:
-            return False
-        if self.regex_filter:
-            if self.regex_filter.match(str(msg)):
-                return True
-            else:
+        if self.whitelist:
+            if msg.name not in self.whitelist:
                 return False
-        if msg.name in self.blacklist:
+        elif msg.name in self.blacklist:
             return False
+        if self.regex_filter:
+            return bool(self.regex_filter.match(str(msg)))
         return True
 
 
-- 
2.43.0


From 0b501f70f08ab32e9fb5eddec7026e1f55c2ceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:28 +0000
Subject: [PATCH 58/60] fix: MessageRecorder: wait for ever with timeout=None
 and do not miss a message

---
 katcp/testutils.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/katcp/testutils.py b/katcp/testutils.py
index 87a9947..870c07d 100644
--- a/katcp/testutils.py
+++ b/katcp/testutils.py
@@ -167,23 +167,25 @@ class MessageRecorder(object):
         """
         start_time = time.time()
         while True:
+            # Anything recorded from here on interrupts the wait below
+            self.msg_received.clear()
             if len(self.msgs) >= number:
                 return True
-            elapsed_time = time.time() - start_time
-            if elapsed_time >= timeout:
-                return None
-            self.msg_received.wait(timeout=timeout-elapsed_time)
+            if timeout is None:
+                remaining = None
+            else:
+                remaining = timeout - (time.time() - start_time)
+                if remaining <= 0:
+                    return None
+            self.msg_received.wait(timeout=remaining)
 
     def append_msg(self, msg):
         """Append a message if it matches the criteria."""
         if msg.mtype not in self.msg_types:
             return
-        try:
-            if self._record_predicate(msg):
-                self.msgs.append(msg)
-                self.msg_received.set()
-        finally:
-            self.msg_received.clear()
+        if self._record_predicate(msg):
+            self.msgs.append(msg)
+            self.msg_received.set()
 
     def _record_predicate(self, msg):
         if self.whitelist:
-- 
2.43.0


From b1a480b0f68089979e5dcbf9281f83ca1432a819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:28 +0000
Subject: [PATCH 59/60] fix: wait_sensor_async: do not resolve twice when the
 first reading and an update both match

---
 katcp/testutils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/katcp/testutils.py b/katcp/testutils.py
index 870c07d..04590a5 100644
--- a/katcp/testutils.py
+++ b/katcp/testutils.py
@@ -1760,7 +1760,11 @@ def wait_sensor_async(sensor, value, status=None, ioloop=None):
             status_matched = reading.status == status or status is None
             if val_matched and status_matched:
                 sensor.detach(self)
-                ioloop.add_callback(f.set_result, True)
+                ioloop.add_callback(resolve)
+
+    def resolve():
+        if not f.done():
+            f.set_result(True)
 
     observer = Observer()
     sensor.attach(observer)
-- 
2.43.0


From aae23fbd590298db98fde5b49c7920db8f4edc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:44 +0000
Subject: [PATCH 60/60] fix: assert_request_succeeds: an echoed bool is
 compared with what was sent

---
 katcp/testutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/katcp/testutils.py b/katcp/testutils.py
index 04590a5..ba79ae1 100644
--- a/katcp/testutils.py
+++ b/katcp/testutils.py
@@ -783,8 +783,8 @@ class BlockingTestClient(client.BlockingClient):
             the main list. Implicitly also checks the number of informs received.
 
         """
-        reply, informs = self.blocking_request(Message.request(requestname,
-                                                               *params))
+        request_msg = Message.request(requestname, *params)
+        reply, informs = self.blocking_request(request_msg)
 
         self.test.assertEqual(reply.name, requestname, "Reply to request '%s'"
                               " has name '%s'." % (requestname, reply.name))
@@ -806,7 +806,7 @@ class BlockingTestClient(client.BlockingClient):
         informs_args_equal = kwargs.get("informs_args_equal")
 
         if args_echo:
-            args_equal = list_to_native_strings(params)
+            args_equal = request_msg.arguments
 
         if args_equal is not None:
             args_equal = list_to_native_strings(args_equal)
-- 
2.43.0

