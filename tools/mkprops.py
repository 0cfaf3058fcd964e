#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": s[0], "meaning": s[1], "where": s[2]} for s in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- wire
p("C01", "Messages survive the wire unchanged",
  "Every message that can be built (any type, valid name, optional message id, any list of byte-string, text, number, "
  "bool or float arguments) serialises to a single line with no raw newline, carriage return, NUL, ESC, space or tab "
  "inside an argument, and parsing that line gives a message equal to the original, message id included. "
  "Copies and replies/informs built from a request keep its name and message id, and its printable representation never raises.",
  ["inputs"], "all message types, names in the KATCP grammar, optional mid, argument lists over all byte values incl. empty arguments and the escape characters, and non-byte argument types",
  "the tests check a couple of dozen hand-written lines; escaping interacts with every byte value, position and empty argument",
  ["katcp/core.py"], [("Message.__bytes__/format_argument", "katcp/core.py"), ("MessageParser.parse", "katcp/core.py")],
  ["bytes(Message)", "MessageParser().parse", "str(Message)/repr(Message)"])
p("C02", "The parser accepts exactly the KATCP grammar and rejects the rest cleanly",
  "For any line of bytes the message parser either returns a message or raises a KATCP syntax error, never anything else. "
  "It accepts a line exactly when the line matches the KATCP message grammar (type character, name, optional numeric message id, "
  "whitespace-separated arguments containing only valid escapes and no forbidden raw bytes), and the message returned has the type, name, mid and unescaped arguments the grammar assigns.",
  ["inputs"], "all byte strings without a line terminator",
  "tests feed a handful of good and bad lines; the rejection set is an infinite language",
  ["katcp/core.py"], [("MessageParser.parse", "katcp/core.py"), ("Message.__init__ validation", "katcp/core.py")],
  ["MessageParser().parse(line)"])
p("C03", "Server framing is independent of how the byte stream is cut up",
  "For any byte stream sent by a client, the server handles the same messages in the same order and sends the same answers however "
  "the stream is split into segments and whichever of the two line terminators ends each line; empty lines are ignored. "
  "A line that is not a valid message is answered with an error log inform and affects neither later lines of that connection nor any other connection.",
  ["inputs", "schedules", "fault_sequences"], "all byte streams (valid requests, garbage, arbitrary bytes, non-UTF-8 arguments, CR/LF mixes), all segmentations, several clients interleaved",
  "the tests send whole well-formed lines over one connection; partial reads, garbage between requests and hostile bytes are not sampled",
  ["katcp/server.py", "katcp/core.py"], [("KATCPServer._line_read_loop", "katcp/server.py"), ("DeviceServerBase.on_message", "katcp/server.py")],
  ["bytes received by raw TCP clients"])
# ---------------------------------------------------------------- types
p("K01", "Every KATCP type decodes what it encodes",
  "For every KATCP parameter type and protocol version, encoding a value of the type's domain and decoding the result gives the value back "
  "(up to the precision the protocol version defines for times), and decoding any accepted text and encoding it again gives a text that decodes to the same value.",
  ["inputs", "configurations"], "all types (int, float, bool, str, discrete, lru, address, timestamp(s), struct, regex, discrete-multi), all values, protocol majors 4 and 5",
  "tests use one to five literal values per type",
  ["katcp/kattypes.py", "katcp/compat.py"], [("KatcpType.pack/unpack", "katcp/kattypes.py")], ["pack()", "unpack()"])
p("K02", "KATCP types reject exactly the values outside their domain",
  "Packing or unpacking a value outside the type's declared domain (range, choices, pattern, format, missing with no default) raises a ValueError or TypeError, "
  "never another exception and never a silently accepted value; values inside the domain, including the boundaries, are always accepted, and defaults replace missing values in both directions.",
  ["inputs", "configurations"], "all types with all bound/choice/default configurations, all byte strings as input text",
  "boundary and malformed-text tests cover a few literals per type",
  ["katcp/kattypes.py"], [("KatcpType.check/get_default", "katcp/kattypes.py")], ["pack()", "unpack()"])
p("K03", "Typed request handlers see decoded parameters and produce typed replies",
  "A handler declared with parameter types is called exactly when the request's arguments match the declaration, with exactly the decoded values "
  "(defaults for missing optional ones, the rest collected for a repeated last parameter); otherwise the client gets a single fail reply naming the first wrong parameter. "
  "What the handler returns is packed by the declared reply types, with status preserved and surplus or missing values refused rather than sent.",
  ["inputs", "programs", "configurations"], "all parameter-type declarations (optional, default, multiple, include_msg, major), all argument lists, all handler results",
  "tests declare about ten fixed handlers with fixed argument lists",
  ["katcp/kattypes.py"], [("request/return_reply/unpack_types/pack_types", "katcp/kattypes.py")],
  ["handler call arguments", "reply message"])
p("K04", "Protocol version and flags are parsed, formatted and applied consistently",
  "Protocol flags survive formatting and parsing, version strings that do not match the grammar are recognised as unknown (0.0, no flags), and flags a version does not support are refused. "
  "A device declaring a protocol version and flags offers exactly the requests and sampling strategies permitted for them, announces exactly those flags, and uses message ids and time units of that version.",
  ["inputs", "configurations"], "all major.minor-flags combinations, handlers gated on any version/flag set",
  "tests instantiate two fixed versions",
  ["katcp/core.py", "katcp/server.py", "katcp/kattypes.py"], [("ProtocolFlags", "katcp/core.py"), ("DeviceServerMetaclass.check_protocol", "katcp/core.py")],
  ["str(ProtocolFlags)", "?help", "#version-connect informs", "?sensor-sampling"])
# ---------------------------------------------------------------- sensors
p("N01", "Sensors store, notify and format readings faithfully",
  "After any sequence of updates a sensor's reading is exactly the last accepted (timestamp, status, value), every attached observer has been "
  "called once per accepted update with that reading, in order, and detached observers are not called. "
  "Formatting a reading and feeding it to another sensor of the same declaration reproduces the reading; formatted readings that cannot be decoded for the sensor's type, and set_value with values outside the type's domain, are refused without changing it or notifying anyone.",
  ["inputs", "histories"], "all sensor types and parameters, all sequences of set/set_value/set_formatted/attach/detach, majors 4 and 5",
  "tests perform one or two updates per sensor type",
  ["katcp/core.py"], [("Sensor.set/set_value/set_formatted/attach/notify", "katcp/core.py")], ["Sensor.read()", "observer callbacks", "read_formatted()"])
p("N02", "Sampling strategies deliver exactly the updates they promise",
  "For every sampling strategy and any history of sensor updates in time, a client receives an initial reading, then updates exactly as the strategy defines: "
  "none - nothing; auto - every update; event - every change of value or status; period - one per period; differential - changes of status or of value exceeding the threshold since the last sent; "
  "rate-limited variants - no two closer than the shortest period, at least one per longest period, and a pending change is delivered as soon as the shortest period allows. Each update carries the reading current when sent. Parameters outside a strategy's domain are refused and leave the strategy in force.",
  ["histories", "schedules", "configurations"], "all strategies and parameters, all timed sequences of sensor updates (value, status, same value), virtual time",
  "tests script one timeline per strategy",
  ["katcp/sampling.py", "katcp/server.py"], [("SampleStrategy subclasses", "katcp/sampling.py"), ("request_sensor_sampling", "katcp/server.py")],
  ["#sensor-status informs and their times", "SampleStrategy inform callback"])
p("N03", "Sampling ends when it is cancelled, replaced, removed or disconnected",
  "A client has at most one strategy per sensor; setting a new one, clearing, setting none, removing the sensor or disconnecting ends the previous one, after which no further update "
  "of it is ever sent to that client and nothing of it stays attached to the sensor or scheduled. Strategies of other clients and other sensors continue unaffected, and querying reports the strategy and parameters in force.",
  ["histories", "schedules"], "all sequences of sensor-sampling/sensor-sampling-clear/bulk sampling requests, sensor updates, sensor removal and re-adding, disconnects from several clients, in virtual time",
  "tests cover single cancel or disconnect steps, not interleavings with several clients and pending timers",
  ["katcp/sampling.py", "katcp/server.py"], [("clear_strategies/remove_sensor/on_client_disconnect", "katcp/server.py"), ("SampleStrategy.cancel", "katcp/sampling.py")],
  ["#sensor-status informs", "?sensor-sampling query", "sensor observers"])
# ---------------------------------------------------------------- server
p("S01", "Every request gets exactly one reply, matching its name and id",
  "Whatever its handler does (returns a reply, fails, raises, returns an invalid result, answers later or through a future, sends informs), each request received on a live connection "
  "gets exactly one reply with the request's name and message id, unknown requests get an invalid reply, and all informs of a request carry its name and id and precede its reply. "
  "Non-concurrent requests of one connection are answered in the order received, and no other connection receives any part of the answer.",
  ["programs", "inputs", "schedules"], "all handler behaviours, pipelined request sequences with and without ids from several clients, all completion orders of asynchronous handlers, both message-handler modes",
  "tests exercise each handler outcome once, one request at a time",
  ["katcp/server.py", "katcp/kattypes.py"], [("DeviceServerBase.handle_request", "katcp/server.py"), ("ClientRequestConnection", "katcp/server.py")],
  ["messages received by raw TCP clients"])
p("S02", "Built-in requests report the device's actual requests, sensors and clients",
  "The help, sensor-list, sensor-value, client-list, version-list, watchdog, request-timeout-hint and log-level requests report exactly the device's current state, for every name or /regex/ filter: "
  "one inform per matching item, none for others, and the number of informs sent equals the count in the reply; names that match nothing and malformed arguments give a fail reply.",
  ["inputs", "histories", "configurations"], "all sensor sets (types, names, parameters, values, statuses), all add/remove histories, all exact and regex filters, several clients, majors 4 and 5",
  "tests use one fixed device with three sensors",
  ["katcp/server.py"], [("request_help/request_sensor_list/request_sensor_value/...", "katcp/server.py"), ("construct_name_filter", "katcp/server.py")],
  ["replies and informs"])
p("S03", "Connection life cycle: greeting, broadcast, disconnect and stop are clean",
  "A connecting client first receives the version informs of the device; every broadcast reaches each client connected at that moment exactly once and nobody else, and arrives as whole lines in order. "
  "A disconnect (orderly, abrupt, or forced for not reading or for sending an over-long line) removes exactly that client from the device's state while others continue, and stopping the server tells each client and closes every connection.",
  ["histories", "fault_sequences", "schedules"], "all sequences of connect, request, broadcast, half-read, over-long line, close, reset, stop and restart over several clients",
  "tests connect one or two well-behaved clients",
  ["katcp/server.py"], [("KATCPServer._handle_stream/_disconnect_client/mass_send_message/send_message", "katcp/server.py")],
  ["bytes received by raw TCP clients", "?client-list"])
p("S04", "Log informs honour the log level",
  "A device log message is broadcast as a log inform exactly when its level is at or above the current level, with the level name, timestamp, logger name and formatted text; "
  "the level set by request or by call is the level reported and in force, invalid level names are refused without changing it, and each message goes to the device's Python logger at the corresponding level, whose own level follows the one set.",
  ["histories", "inputs"], "all level names, all message texts and format arguments, all sequences of set-level and log calls",
  "tests set one level and log once",
  ["katcp/server.py"], [("DeviceLogger", "katcp/server.py"), ("request_log_level", "katcp/server.py")], ["#log informs", "?log-level reply"])
p("S05", "Threaded and single-threaded servers give clients the same answers",
  "For the same sequence of requests a device run with a message handler thread and thread-safe sending gives every client the same replies and informs as one run on the I/O loop, "
  "in the same per-connection order; messages sent from any number of application threads arrive whole, each exactly once, in order per sending thread; sensor values set by threads reach the clients that sample them, in order and up to the last, and none after sampling is cancelled; sending and setting never fail because the server stops meanwhile, and stop always completes.",
  ["schedules", "inputs", "configurations"], "all request sequences including hostile ones, several clients, all concurrency options, several application threads sending informs and setting sensors at once",
  "tests run the two modes on a few single requests",
  ["katcp/server.py"], [("MessageHandlerThread", "katcp/server.py"), ("call_from_thread/send_message_from_thread", "katcp/server.py")],
  ["messages received by raw TCP clients"])
# ---------------------------------------------------------------- client
p("A01", "Every client request completes exactly once with its own reply and informs",
  "Every request made through the asynchronous client, by future or callback, completes exactly once: with the reply that carries its message id (or, without ids, the oldest outstanding request of that name), "
  "or with a failure reply on timeout, disconnect, stop or when not connected. The informs handed over are exactly those received for that request before its reply, in order; "
  "late, duplicate or foreign replies and informs are never delivered to another request.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of concurrent requests, replies in any order, duplicated, delayed past the timeout, missing, with wrong id or name, disconnects and stops at any point",
  "tests run one request against a well-behaved server or one timeout",
  ["katcp/client.py"], [("AsyncClient._push/_pop_async_request, handle_reply, _handle_timeout, _fail_waiting_requests", "katcp/client.py")],
  ["future results", "callback invocations"])
p("A02", "The client tracks connection and protocol state and reconnects",
  "While running, a client with automatic reconnection re-establishes its connection after any sequence of refusals and drops, reports each connect and disconnect exactly once and alternately, and without it stays disconnected. "
  "After each connect it derives protocol version, message-id use and time units from the server's version informs (or the preset; a server contradicting an earlier detection is left for good), never reuses a message id on a connection, and passes each received message to the one handler for its type and name; malformed input does not end the connection.",
  ["fault_sequences", "schedules", "inputs"], "all sequences of server up/down/drop, version informs of every form, arbitrary received lines and segmentations",
  "tests drop the connection once and send one version inform",
  ["katcp/client.py"], [("DeviceClient._connect_loop/_connect/_line_read_loop/_stream_closed_callback", "katcp/client.py"), ("preset_protocol_flags/inform_version_connect", "katcp/client.py")],
  ["notify_connected", "is_connected()", "protocol_flags", "bytes sent by the client"])
p("A03", "Blocking and thread-safe client calls are safe from any thread",
  "Any number of threads may issue blocking, callback and future requests on one client at once: each call gets the reply to its own request with its own informs, none is lost or answered twice, bytes of different requests never interleave, and blocking calls return within their timeout even if the server never answers or disconnects. "
  "A resource, container or group wrapped for threads gives each thread the results and readings the wrapped object gives on its loop, and lists every sensor and request of it, while threads use it and the device changes.",
  ["schedules", "fault_sequences"], "all numbers of threads and request mixes against servers replying out of order, late or not at all",
  "tests issue blocking requests from one thread",
  ["katcp/client.py"], [("blocking_request, make_threadsafe, enable_thread_safety", "katcp/client.py"), ("ThreadSafeKATCPClientResourceWrapper, ClientGroup.req, KATCPClientResourceContainer.req/sensor", "katcp/resource_client.py"), ("IOLoopThreadWrapper", "katcp/ioloop_manager.py")], ["return values in each thread", "bytes received by the server"])
# ---------------------------------------------------------------- inspecting
p("I01", "A synced inspecting client's model equals the device's requests and sensors",
  "Whenever an inspecting client reports itself data-synced, its sets of requests and sensors, with description, type, units, parameters and timeout hint, equal those of the device, "
  "and after any sequence of interface changes, failures during inspection, disconnects and reconnects to a still-working device it becomes synced again. "
  "The model changes it announces, applied in order to an empty model, give exactly the current model.",
  ["histories", "fault_sequences", "schedules"], "all sequences of adding, removing and changing sensors/requests, interface-changed informs, failing or dropped inspection requests, reconnects to a changed device",
  "tests sync once and add or remove a single item",
  ["katcp/inspecting_client.py"], [("_state_loop/inspect/_update_index/_difference", "katcp/inspecting_client.py")],
  ["state callback", "sensors", "requests", "future_get_sensor/future_get_request"])
p("I02", "Inspecting client lookups and sensor updates return current information",
  "Looking a sensor or request up by name returns an object with the device's current description or nothing if the device has none, asking the device when not known; "
  "received sensor-status informs are delivered once per sensor reading, in order, to the sensor object of that name with the decoded timestamp, status and value, whatever else (unknown sensors, malformed informs) is received in between.",
  ["histories", "inputs"], "all interleavings of lookups, interface changes and sensor-status informs of one or several readings for known, unknown and removed sensors",
  "tests look up one sensor and send one inform",
  ["katcp/inspecting_client.py"], [("future_get_sensor/future_check_sensor/update_sensor/_cb_inform_sensor_status", "katcp/inspecting_client.py")],
  ["returned objects", "sensor objects' readings"])
p("I03", "Resync back-off stays within its bounds, grows on failure and resets on success",
  "For any parameters the back-off delay always lies between (1 - randomicity) and 1 times the current base delay and never exceeds the maximum; the base delay starts at the initial delay, grows by the configured factor per consecutive failure up to the maximum and returns to the initial value after success; "
  "invalid parameters are refused, and a client that fails to inspect a device waits accordingly before the next attempt and starts from the initial delay after a successful sync.",
  ["histories", "configurations", "fault_sequences"], "all valid and invalid parameter combinations, all success/failure sequences",
  "tests use one parameter set",
  ["katcp/inspecting_client.py"], [("ExponentialRandomBackoff", "katcp/inspecting_client.py"), ("_state_loop", "katcp/inspecting_client.py")], ["delay", "times of inspection attempts"])
# ---------------------------------------------------------------- resource
p("R01", "A resource client exposes exactly the permitted requests and all sensors",
  "When a resource client is synced, its sensors are exactly the device's sensors under their escaped names and its requests exactly those permitted: all of the always-allowed ones, and when controlled those not excluded and allowed by the configured lists; "
  "this continues to hold after every interface change and reconnect. Requests go to the device with the given arguments and return its reply and informs, and raise when the resource is inactive.",
  ["configurations", "histories"], "all allow/exclude/always-allow/controlled configurations, all device interfaces and histories of changes and reconnects",
  "tests use one device and one configuration each",
  ["katcp/resource_client.py", "katcp/resource.py"], [("_add_requests/_remove_requests/_add_sensors/_remove_sensors", "katcp/resource_client.py")],
  ["resource.req", "resource.sensor", "replies"])
p("R02", "Sampling strategies and listeners persist across reconnects and late sensors",
  "A sampling strategy set through a resource is in force on the device whenever the resource is synced and the sensor exists, whether it was set before the sensor or connection existed, and is re-applied after every reconnect until dropped or replaced; "
  "each registered listener is called once per received reading in order with that reading and is never called after being removed, and the cached reading is the last one received.",
  ["histories", "fault_sequences"], "all sequences of set/drop strategy, register/unregister listener, sensor updates, disconnects, device restarts, sensors appearing and disappearing",
  "tests reconnect once with one strategy",
  ["katcp/resource_client.py", "katcp/resource.py"], [("KATCPClientResourceSensorsManager", "katcp/resource_client.py"), ("KATCPSensor", "katcp/resource.py")],
  ["strategy state on the device", "listener calls", "sensor.reading"])
p("R03", "Group requests and waits succeed exactly when the quorum does",
  "A request to a group is sent once to every member and returns each member's own reply; the result succeeds exactly when every member (or the requested quorum, for waits) succeeded. "
  "Waiting on a sensor condition finishes successfully exactly when the condition holds for a reading - at once if it already holds - and otherwise fails at the timeout, leaving no listener behind.",
  ["histories", "schedules", "configurations"], "all group sizes, quorums, per-member outcomes and timings, conditions and values, timeouts, missing sensors",
  "tests use two members and one timing",
  ["katcp/resource_client.py", "katcp/resource.py"], [("GroupRequest/GroupResults/ClientGroup.wait", "katcp/resource_client.py"), ("KATCPSensor.wait", "katcp/resource.py")],
  ["returned results"])
p("R04", "A container is the exact union of its children",
  "At every moment a resource container's sensors and requests are exactly those of its children, under names prefixed by the child's escaped name, through any sequence of children and interfaces being added or changing; "
  "strategies, listeners and filters applied to the container reach exactly the named sensors of the right child, for all resource and sensor names, and sensor listing with any filter returns exactly the matching sensors.",
  ["histories", "inputs", "configurations"], "all sets of children and names (incl. '-', '.', '_' and names that are prefixes of each other), all histories of interface changes and accesses, all filters",
  "tests use two children with simple names",
  ["katcp/resource_client.py", "katcp/resource.py"], [("KATCPClientResourceContainer", "katcp/resource_client.py"), ("list_sensors", "katcp/resource_client.py"), ("escape_name", "katcp/resource.py")],
  ["container.sensor", "container.req", "list_sensors()"])
p("R05", "State reports and waits of resources and containers tell the truth",
  "The state a resource reports (disconnected, syncing, synced), its synced and is_connected, and those of containers and groups agree with each other and are never 'synced' without a connection; "
  "with its device up it becomes synced, with it down disconnected, reconnecting after its configured delay; every wait (for a state, synced, not synced, connected; of one resource, any or all children of a container, or an inspecting client) "
  "ends exactly when the awaited condition first holds, at once if it holds already, or with a timeout error at its deadline, and never otherwise; a sync monitor calls back False and then alternately True and False as the resource's sync state changes, "
  "and not after its exit event; until_stopped ends exactly when a stopped client has stopped, after which it stays disconnected.",
  ["histories", "schedules", "faults"], "all histories of drops, outages, interface changes, failed inspections, stops and added children, all waits begun at any moment with any timeout",
  "tests wait for one state at a time on one resource",
  ["katcp/resource_client.py", "katcp/inspecting_client.py"], [("KATCPClientResource.until_*", "katcp/resource_client.py"), ("KATCPClientResourceContainer.until_*", "katcp/resource_client.py"), ("monitor_resource_sync_state", "katcp/resource_client.py"), ("InspectingClientAsync.until_*", "katcp/inspecting_client.py")],
  ["results and completion times of the wait futures", "resource.state", "monitor callbacks"])
# ---------------------------------------------------------------- trees
p("T01", "A boolean sensor tree always equals the conjunction of its children",
  "After any sequence of adding and removing links and updating leaf sensors in an acyclic graph, every sensor with children in a boolean sensor tree has status nominal and as value the conjunction of its current children's values, at every level; "
  "a parent whose last child is removed becomes true, sensors that are not boolean are refused leaving the rest intact, and sensors no longer in the tree are no longer observed.",
  ["histories"], "all acyclic tree histories (add, remove, leaf updates), several levels, shared children",
  "tests build two fixed trees",
  ["katcp/sensortree.py"], [("GenericSensorTree/BooleanSensorTree", "katcp/sensortree.py")], ["parent sensor readings", "children()/parents()"])
p("T02", "An aggregate sensor tree applies each rule to its current children",
  "After any sequence of adding rules (with children present or named for later), registering, deregistering and removing sensors and updating children, every complete aggregate was last computed by its rule from its declared children upon their latest update, "
  "an incomplete one is not computed when its children change, and a rule becomes active exactly when all its named children are registered and inactive when one is deregistered; other aggregates are unaffected.",
  ["histories"], "all histories of add, add_delayed, register, deregister, remove and child updates over several parents sharing children",
  "tests run one delayed rule and one deregistration",
  ["katcp/sensortree.py"], [("AggregateSensorTree", "katcp/sensortree.py")], ["rule invocations", "parent sensor readings"])
# ---------------------------------------------------------------- utilities
p("U01", "Asynchronous events, states and future combinators keep their contracts",
  "Events wake every waiter exactly when set, states resolve waiters exactly on reaching the awaited state, any/some combinators resolve with exactly the first finished future(s), and timeouts raise exactly when the deadline passes first; "
  "this holds for every order of waiting, setting, clearing, completion, failure and timeout, from the loop or from other threads.",
  ["schedules", "histories"], "all sequences of set/clear/state changes/waits/timeouts/future completions in virtual time",
  "tests run one order each",
  ["katcp/core.py"], [("AsyncEvent/AsyncState/until_any/until_some/future_timeout_manager", "katcp/core.py")], ["future results"])
p("U02", "The I/O loop manager and thread wrapper run and stop cleanly",
  "A managed I/O loop starts and stops its thread exactly once per start/stop whatever the order and number of calls, an unmanaged loop is never started or stopped by it, "
  "and calling a function or coroutine into the loop from any thread returns its result or raises its exception to the caller, and times out rather than hangs.",
  ["schedules", "histories"], "all sequences of start/stop/join and calls from several threads, results, exceptions and timeouts",
  "tests start and stop once",
  ["katcp/ioloop_manager.py", "katcp/resource_client.py"], [("IOLoopManager/IOLoopThreadWrapper", "katcp/ioloop_manager.py")], ["return values", "thread state"])

# ---------------------------------------------------------------- fakes
p("F01", "A fake client behaves like a real one connected to such a device",
  "A program given a fake inspecting client, resource or resource container (katcp.fake_clients) sees after every change exactly the sensors and requests that were added to the fake, "
  "with their types, units, parameters and documentation; invalid sensors and undocumented handlers are refused and change nothing, and a resource cannot be managed before it is started. "
  "A request is answered by its fake handler and by nothing else: the handler gets the request's arguments and id, the caller gets the informs in order and the reply "
  "(a FailReply or badly typed arguments become a fail reply) under the request's name and message id, however many requests are under way; requests without a handler succeed, "
  "and ?help and ?sensor-list answer from the fake's own handlers and sensors.",
  ["inputs", "histories", "programs"], "all sequences of adding sensors and handlers (plain, typed, coroutine, failing) and of requests, for clients, resources and containers",
  "tests add one fixed set of sensors and two handlers, and send two requests",
  ["katcp/fake_clients.py"], [("FakeInspectingClientManager/FakeAsyncClient.future_request", "katcp/fake_clients.py"),
                              ("fake_KATCP_client_resource(_container)_factory", "katcp/fake_clients.py")],
  ["replies and informs", "the resource's sensors and requests"])

# ---------------------------------------------------------------- test helpers
p("V01", "Test helpers pass exactly when what they assert or wait for holds",
  "A program that tests a device with katcp.testutils gets true verdicts. Every assertion of the blocking test client (sensor values and statuses, sensor and request lists, "
  "succeeding and failing requests, setter requests), of the sensor comparisons and of the message list assertions passes if and only if what it is documented to assert holds, whatever the texts involved, "
  "and fails with an AssertionError, never with another error; a wait succeeds as soon as its condition holds and gives up after its timeout, not before. "
  "Message recorders return every message that their types, whitelist, blacklist and regex admit, once and in order; transition waiters see every update after their creation, "
  "follow the documented algorithm and detach from the sensor when done; call counters, waiting mocks and mock requests count and record every call, reply and inform.",
  ["inputs", "histories", "programs"], "all assertions with their options over generated device answers, sensors, message lists, timelines of updates and sequences of calls, from the same or another thread",
  "tests use a few fixed values that pass or fail for one reason each; options that take precedence over each other, odd texts, and near misses are not sampled",
  ["katcp/testutils.py"], [("BlockingTestClient/MessageRecorder", "katcp/testutils.py"), ("SensorComparisonMixin/TestUtilMixin", "katcp/testutils.py"),
                           ("SensorTransitionWaiter/wait_sensor/wait_sensor_async", "katcp/testutils.py"), ("counting_callback/WaitingMock/mock_req", "katcp/testutils.py")],
  ["AssertionError or not", "recorded messages and values", "results and instants of waits"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
print(len(P))
