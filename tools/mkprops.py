#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    a = {"files": files,
         "mechanism": [{"name": mechanism, "where": files[0]}],
         "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Stream writer delivers every frame once, in order, to every healthy output",
 "Every frame handed to the stream writer is written exactly once, whole, length-prefixed and in hand-over order to every output stream and every output queue that stays registered, whatever other outputs are being added, removed, closed or are failing meanwhile. An output registered or removed mid-stream sees a gap-free run of consecutive frames. A stream whose write fails is dropped, its owner is told once, and the writer keeps serving the other outputs without deadlock.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of the writer thread with threads adding/removing outputs, all placements of write/flush errors, short writes, closed streams and slow consumers, all queue bounds",
 "Tests write a handful of frames to one or two outputs and remove outputs only when the writer is idle; removal, failure and registration racing with an in-progress fan-out are never produced.",
 ["vtelem/stream/writer.py", "vtelem/daemon/queue.py", "vtelem/classes/metered_queue.py"],
 "StreamWriter frame handler copies the registered outputs under the lock, writes outside it and removes failed streams afterwards; registrations change the maps under the same lock",
 [("registered streams/queues", "outputs currently subscribed"), ("frame queue", "frames accepted but not yet fanned out")],
 ["bytes received by each output stream", "items received by each output queue", "removal result, closer and error callbacks"])

prop("C02", "A dispatch emits each due channel once, decodable, within the size limit",
 "Each dispatch emits every channel whose period has elapsed exactly once and no channel that is not due, with a value that channel held while the dispatch ran. Every produced frame fits the size limit in force, carries the dispatch time and the application identifier, and decodes with the same channel registry to exactly the emitted identifiers and values. This holds while other threads register channels, set values, change periods or lower the size limit.",
 ["schedules", "inputs", "histories"],
 "all interleavings of dispatch with registration, value changes, rate changes and size-limit changes; all channel mixes, rates and size limits",
 "Tests dispatch from one thread with fixed channels; no test changes channels, rates or limits while a dispatch is in progress.",
 ["vtelem/channel/environment.py", "vtelem/channel/framer.py", "vtelem/channel/__init__.py", "vtelem/frame/__init__.py", "vtelem/frame/channel.py", "vtelem/parsing/frames.py", "vtelem/parsing/encapsulation.py"],
 "dispatch holds the environment lock while iterating channels, packing emissions into frames bounded by the mtu and queueing them",
 [("last emitted time per channel", "when the channel was last sampled"), ("frame queue", "frames ready for output")],
 ["frames taken from the frame queue, decoded by the library's own decoder", "return value of dispatch"])

prop("C03", "Every change is reported as one event, in order, with an unbroken chain",
 "For every change-tracked channel the event frames report each value change exactly once, in the order the changes happened, with the time of each change, and each event's 'previous' value equals the preceding event's 'current' value, with the time that value was last set. This holds for any number of writers and for changes made while a dispatch is draining events, as long as no more changes are pending than the event buffer holds. Setting a channel to the value it already holds, or to an invalid value, produces no event.",
 ["schedules", "histories"],
 "all interleavings of several writers of the same and different tracked channels with repeated dispatches",
 "Tests change one channel from one thread between dispatches; concurrent writers and writers racing a dispatch are not exercised.",
 ["vtelem/classes/type_primitive.py", "vtelem/classes/event_queue.py", "vtelem/channel/__init__.py", "vtelem/channel/framer.py", "vtelem/frame/channel.py"],
 "a change callback enqueues (previous, current) pairs; a dispatch drains the event queue and packs events into frames",
 [("event queue", "changes not yet framed")],
 ["decoded event frames"])

prop("C04", "Concurrent updates of channels and counters are never lost",
 "When several threads increment or decrement the same channel (directly, by command, or through metrics) the final value equals the initial value plus the sum of all accepted updates. Daemon and queue metrics agree with what actually happened once activity stops: enqueued minus dequeued equals the number of elements present, and each counter equals the number of counted occurrences. No update makes an unrelated operation fail.",
 ["schedules", "histories"],
 "all interleavings of concurrent increments, decrements, commands, metric updates and queue operations",
 "Tests update metrics from one thread or assert only that they exist; a lost update needs two threads inside the same read-modify-write.",
 ["vtelem/classes/type_primitive.py", "vtelem/channel/__init__.py", "vtelem/channel/environment.py", "vtelem/classes/metered_queue.py", "vtelem/daemon/__init__.py"],
 "channel values are read-modified-written by add; daemon metrics accumulate under the daemon lock then are published to the environment",
 [("channel value", "current primitive"), ("metric data", "daemon-side counters")],
 ["channel values and metric values read through the environment"])

prop("C05", "Group reads, writes and dispatches are mutually atomic",
 "A channel group's write is seen by every group read and every dispatch either completely or not at all, and a group read never returns values from two different writes. A dispatch running between two writes emits values of a single write for channels of the same group that are due together. Leaving the group's context publishes exactly the values its dictionary then holds, as one write.",
 ["schedules", "histories"],
 "all interleavings of group writers, group readers and dispatches; any number of groups and channels, plain and enumerated",
 "Tests read and write groups from a single thread, so a torn view can never be observed.",
 ["vtelem/channel/group.py", "vtelem/channel/group_registry.py", "vtelem/channel/framer.py", "vtelem/channel/environment.py"],
 "group read and write hold the environment lock; dispatch holds the same lock",
 [("group values", "per-channel values of one logical record")],
 ["dictionaries returned by group reads", "decoded data frames"])

prop("C06", "A rejected or failing operation never blocks or corrupts later ones",
 "When an operation on shared state is rejected or raises (duplicate names, invalid or unencodable arguments, failing user callbacks, operations in the wrong state), every other thread can still use the same environment, daemons and registries afterwards, and the rejected operation leaves no partial effect visible. Guarded sections are released on every exit path.",
 ["schedules", "fault_sequences"],
 "all placements of failing operations among concurrent valid ones, on every public operation that takes a lock",
 "Tests check that the failing call itself fails, always from the only thread, where a leaked re-entrant lock is invisible.",
 ["vtelem/classes/time_entity.py", "vtelem/channel/group.py", "vtelem/channel/environment.py", "vtelem/telemetry/environment.py", "vtelem/daemon/__init__.py", "vtelem/classes/state_machine.py"],
 "all shared state is guarded by one lock wrapper used as a context manager",
 [("entity lock", "guards environments, daemons, managers")],
 ["progress of other threads in bounded simulated time", "state read back through the public API"])

prop("C07", "Fragmented messages are reassembled exactly under loss, dups and reordering",
 "A message of any type and content that is serialized into frames for any usable size limit and whose frames are delivered in any order, with any duplicates and interleaved with the frames of other messages, is reported complete exactly when its last missing fragment arrives, with exactly the original bytes and its message number (that of the frame received last; the latest fragment received for an index counts). Until then it is never reported complete and its content is not available. Registered consumers of its type are called once, with the complete content, and consumers of other types are not called.",
 ["inputs", "histories", "fault_sequences"],
 "all delivery orders, duplications, losses and interleavings of the frames of many messages of all types and sizes and fragment sizes",
 "Tests deliver fragments once and in order, so duplicated, reordered, interleaved or lost fragments are not covered.",
 ["vtelem/message/framer.py", "vtelem/message/cache.py", "vtelem/frame/message.py", "vtelem/frame/fields.py", "vtelem/parsing/frames.py"],
 "the framer numbers and splits messages and stamps checksum, index and total; the cache stores fragments by type, checksum and index and counts them",
 [("fragment store", "fragments received so far"), ("message index", "completion state per message")],
 ["completion list, content and consumer callbacks of the cache"])

prop("C08", "The message cache survives crashes and disk errors without wrong content",
 "After a crash at any point, or an I/O error from any file operation, a cache reopened on the same directory either returns exactly the original bytes for a message or does not report it as complete; a message that was complete when the cache was last successfully saved is still complete and intact. Redelivering all fragments after the reopen always completes every message with the right content. Reopening never fails because of what the interrupted run left behind.",
 ["crash_points", "fault_sequences", "histories"],
 "all crash points between and inside file operations (torn fragment and index writes), all single and repeated I/O errors (full disk, I/O error, short write), any number of restarts",
 "The one test that reopens a cache does so after a clean save; no crash or disk error is ever injected.",
 ["vtelem/message/cache.py", "vtelem/classes/data_cache.py"],
 "fragments are stored one file each as they arrive; the message index is written only on save and loaded on construction",
 [("fragment files", "durable fragments"), ("index files", "durable completion state")],
 ["completion list and content after reopening"])

prop("C09", "A TCP client turns any segmentation of the stream into exactly the sent frames",
 "However the network splits, delays or coalesces the byte stream, the client delivers exactly the frames sent, complete, once and in order, and then a single end-of-stream marker when the run ends (by being stopped or because the connection ended). If the connection breaks at any byte the client delivers exactly the frames fully received before the break and never a corrupted one, and after it is restarted on a new connection it again delivers exactly what that connection carries. Stopping a running client always ends it in bounded time, whatever the peer did.",
 ["schedules", "fault_sequences", "histories"],
 "all segmentations and delays, connection reset or close at any byte, silent peers, stop and restart at any time",
 "Tests use loopback where each frame usually arrives in one segment; mid-frame breaks and restarts are not produced.",
 ["vtelem/client/tcp.py", "vtelem/client/socket.py", "vtelem/client/__init__.py", "vtelem/frame/processor.py", "vtelem/classes/byte_buffer.py", "vtelem/parsing/encapsulation.py"],
 "received bytes accumulate in a frame processor that cuts length-prefixed frames, decodes them and queues them",
 [("partial frame buffer", "bytes of the current incomplete frame")],
 ["frames in the client's output queue", "daemon state"])

prop("C10", "A UDP client survives loss, duplication, reordering and garbage datagrams",
 "Every well-formed datagram that reaches the client from its application is decoded and delivered once per arrival in arrival order, with exactly the sent content. Lost datagrams are simply absent, and malformed, truncated, corrupted or foreign-application datagrams are dropped without being delivered as frames, without affecting the decoding of later datagrams and without ending the client.",
 ["fault_sequences", "schedules", "inputs"],
 "all sequences of losses, duplications, reorderings, truncations, byte corruptions and foreign or random datagrams, at any time relative to start and stop",
 "Tests send well-formed datagrams over a loss-free loopback only.",
 ["vtelem/client/udp.py", "vtelem/client/socket.py", "vtelem/client/__init__.py", "vtelem/parsing/encapsulation.py", "vtelem/parsing/frames.py", "vtelem/frame/processor.py"],
 "each datagram passes through the frame processor and decoder, which verify identifier and checksum",
 [("partial frame buffer", "state carried between datagrams")],
 ["frames in the client's output queue", "daemon state"])

prop("C11", "A recorded telemetry file replays exactly the completely written frames",
 "Reading a recorded file yields exactly the frames completely written to it, in order and intact, followed by one end marker unless a frame limit ended the reading; a recording cut off or torn at any byte by a crash or full disk yields exactly its complete frames. With a frame limit the reader never delivers more than the limit. Appending a later recording session to one that ended on a frame boundary and reading from the recorded position continues without repeating or skipping frames.",
 ["crash_points", "fault_sequences", "histories", "schedules"],
 "all truncation points, disk errors while recording, read limits, start positions and append sessions, and reader/writer interleavings",
 "Tests read back one complete file written without errors.",
 ["vtelem/client/file.py", "vtelem/stream/writer.py", "vtelem/frame/processor.py", "vtelem/client/__init__.py"],
 "the writer appends length-prefixed frames to the file stream; the file client reads blocks and feeds them to the frame processor",
 [("file contents", "recorded frames"), ("byte index", "resume position")],
 ["frames in the reader's output queue", "file contents"])

prop("C12", "Daemon life-cycle operations are safe under concurrency",
 "Under any concurrent mix of start, stop, pause, unpause and restart requests issued directly or through the manager, each daemon runs at most one worker at a time, moves only along legal state transitions, and every request returns in bounded time with a result that matches what happened (a stop whose worker outlasts its time-out reports failure). After a successful stop the worker has ended, unless the worker itself asked for it, and the daemon can be started again, and the published state and start/stop/pause counters match the transitions that took place. Requests to the whole group reach every daemon once, after the daemons it depends on.",
 ["schedules", "histories"],
 "all interleavings of life-cycle requests from several threads with the workers of periodic, queue and dependent daemons",
 "Tests issue requests sequentially and sleep between them.",
 ["vtelem/daemon/__init__.py", "vtelem/daemon/manager.py", "vtelem/daemon/synchronous.py", "vtelem/daemon/queue.py", "vtelem/enums/daemon.py"],
 "state changes happen under the daemon lock; the manager serializes requests; stop injects a wake-up and joins the worker",
 [("daemon state", "life-cycle state"), ("worker thread", "current worker")],
 ["state change callback history", "request results", "worker activity", "state and counter metrics"])

prop("C13", "A periodic task keeps its rate, pauses and resumes without extra or lost runs",
 "While running, consecutive runs of a periodic task start no closer together than its period (or than the run time, if longer) and, on an undisturbed clock, no further apart than that plus the time base's resolution; overruns are counted and reported once per overrun. No run starts while the task is paused (a run already about to begin may still do so) or after stop has returned, runs resume after unpausing, and a period change takes effect from the next cycle. Runs never overlap.",
 ["schedules", "fault_sequences"],
 "all task durations, periods, pause/unpause/stop times, period changes and scheduling delays",
 "Tests use real sleeps with tolerances and check only that something ran.",
 ["vtelem/daemon/synchronous.py", "vtelem/daemon/__init__.py", "vtelem/daemon/telemetry.py"],
 "the worker loop runs the task, measures its duration and sleeps the remainder of the period",
 [("rate", "period"), ("state", "running/paused/stopping")],
 ["start and end times of every task run in simulated time", "overrun callback and metrics"])

prop("C14", "The time base is consistent for all dependants and scales as requested",
 "The time seen by every dependent object never runs backwards unless the underlying clock does, advances by the elapsed clock time multiplied by the scale in force, and is the same for all dependants after each advance. Changing the scale affects only time elapsing after the change takes effect, and sleeping through the time base lasts the requested amount divided by the scale. Objects attached at any moment immediately see the current time and are advanced from then on.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of advances, scale changes and attachments with readers; clock jumps forward and backward, coarse clocks",
 "Tests check one scale on a mocked clock from one thread.",
 ["vtelem/classes/time_keeper.py", "vtelem/classes/time_entity.py", "vtelem/telemetry/server.py"],
 "the keeper accumulates scaled clock deltas under its lock and assigns its time to all dependants",
 [("time", "scaled application time"), ("last evaluation", "clock reading of the last advance")],
 ["times read from keeper and dependants"])

prop("C15", "Commands are executed once, in order, and each caller gets its own result",
 "Every command accepted by the command queue is executed exactly once, in the order accepted, and its result callback is called once per executed handler with that command's own result; unknown, malformed or failing commands produce a failure result and never stop later commands from being executed. A caller waiting synchronously gets the result of its own command or, after the time-out, a failure (its command may still be executed later). Success, failure and rejection counts match the results delivered.",
 ["schedules", "inputs", "fault_sequences"],
 "all interleavings of concurrent callers and the command thread; all well-formed, malformed and ill-typed commands to every registered command family; slow and failing handlers",
 "Tests send valid commands and a few malformed ones one at a time.",
 ["vtelem/daemon/command_queue.py", "vtelem/factories/telemetry_environment.py", "vtelem/factories/daemon_manager.py", "vtelem/factories/udp_client_manager.py", "vtelem/daemon/queue.py"],
 "a queue daemon pops (command, callback) pairs and runs the registered handlers",
 [("command queue", "accepted commands"), ("handlers", "registered consumers")],
 ["result callbacks and execute results", "channel and daemon state after commands", "command metrics"])

prop("C16", "A state machine is linearizable under concurrent iterations",
 "Concurrent iterations of a state machine behave as if executed one after another: each iteration runs the state that is current when it executes, leave and enter hooks run in that order only for actual transitions, and the returned start and end states belong to that iteration. A refused leave or enter keeps the current state. Transition, failure and iteration counts equal what happened.",
 ["schedules", "histories"],
 "all interleavings of several threads running the same machine and machines sharing an environment, with all hook outcomes",
 "Tests iterate a machine from one thread.",
 ["vtelem/classes/state_machine.py", "vtelem/classes/state.py", "vtelem/channel/group.py"],
 "an iteration runs state code and hooks under the machine's lock and then updates metrics",
 [("current state", "state to run next"), ("shared data", "data visible to states")],
 ["hook and run call history", "returned states", "metrics"])

prop("C17", "Registries give every name one permanent identifier under concurrency",
 "Concurrent registrations and lookups in any registry behave as if executed one at a time: each name is registered at most once, identifiers are unique, dense and never change, and both lookup directions agree. A lookup of something unknown never changes what the registry later reports. A description taken at any moment is a consistent snapshot.",
 ["schedules", "histories"],
 "all interleavings of registrations, duplicate registrations, lookups by name and identifier, descriptions and exports on channel, enum, type, group and service registries",
 "Tests register from one thread and look up only known names before describing.",
 ["vtelem/registry/__init__.py", "vtelem/registry/enum.py", "vtelem/registry/type.py", "vtelem/registry/service.py", "vtelem/channel/registry.py", "vtelem/channel/group_registry.py", "vtelem/telemetry/environment.py"],
 "each registry guards its maps with a lock and assigns consecutive identifiers",
 [("name and identifier maps", "registrations")],
 ["results of registrations and lookups", "registry descriptions"])

prop("C18", "The TCP telemetry server serves each client a gap-free stream and cleans up",
 "Every client connected to the telemetry server receives a gap-free run of whole frames in production order for as long as it stays connected, regardless of other clients connecting, disconnecting, stalling within buffer limits or resetting. Stopping the server ends every client connection it serves and every handler in bounded time, the published client count returns to the number of live connections, and the server can be started again.",
 ["schedules", "fault_sequences", "histories"],
 "all connect, disconnect, reset, stall and stop times relative to frame production, any number of clients",
 "Tests connect one or two clients on loopback and stop after an idle period.",
 ["vtelem/daemon/tcp_telemetry.py", "vtelem/stream/writer.py", "vtelem/client/tcp.py"],
 "a handler thread per connection registers the socket as an output stream and waits for a semaphore released on error or stop",
 [("client semaphores", "how handlers are released"), ("registered streams", "connected clients")],
 ["bytes received by each simulated client", "daemon results and metrics"])

prop("C19", "The websocket services deliver frames and command results and shut down cleanly",
 "Each websocket telemetry client receives a gap-free run of whole frames in order while connected, and each message sent to the command service gets exactly one reply, in order, carrying that command's own result, including for invalid JSON. Clients that disconnect, stall (a client too slow to read is disconnected) or die mid-message do not affect the others. Stopping the service ends in bounded time with every connection closed and no handler left behind.",
 ["schedules", "fault_sequences"],
 "all interleavings of event loop, writer, command thread and clients, with disconnects, segmentation and stops at any time",
 "Tests use one well-behaved client at a time.",
 ["vtelem/daemon/websocket.py", "vtelem/daemon/websocket_telemetry.py", "vtelem/daemon/event_loop.py", "vtelem/factories/websocket_daemon.py", "vtelem/client/websocket.py"],
 "an event loop thread runs one handler task per connection; stop cancels tasks, stops the loop and waits for handler posts",
 [("wait count", "connections whose end must be awaited"), ("client queues", "frames for each connection")],
 ["messages received by each client", "daemon results"])

prop("C20", "The HTTP API answers every request correctly under concurrency",
 "Every well-formed request gets exactly one complete response whose status, declared length and body match what the addressed resource returns at that time, for any interleaving of requests and any segmentation of the bytes. Unknown paths, bad arguments and malformed, incomplete or aborted requests get an error or are dropped and affect no other request; in particular they never change what later requests see. Commands sent over HTTP are executed once and return their own result.",
 ["schedules", "fault_sequences", "inputs"],
 "all interleavings of concurrent requests, partial or aborted requests, registrations and commands",
 "Tests issue one request at a time to known paths.",
 ["vtelem/classes/http_request_mapper.py", "vtelem/daemon/http.py", "vtelem/factories/telemetry_server.py", "vtelem/daemon/command_queue.py"],
 "a threading HTTP server maps method and path to registered handlers",
 [("request map", "registered handlers")],
 ["raw response bytes read by simulated clients"])

prop("C21", "The whole server starts, serves and shuts down without deadlock or thread loss",
 "A telemetry server with all services enabled and applications registered before or after start serves frames, commands and requests, and can be told to stop, pause, rescale time or shut down over any interface at any moment, and every such operation completes in bounded time without any worker dying from an unhandled error. Once shutdown has succeeded all workers have ended and all listening sockets are closed, whatever state the services were in; a worker that outlasts the stop time-out makes it fail, but everything else is still stopped and closed. Applications run only after their setup completed and only while started.",
 ["schedules", "fault_sequences", "configurations"],
 "all interleavings of all service threads, application threads and clients, with client faults and control operations at any time, in one start-to-shutdown cycle; start and restart requests that are still being executed when the shutdown is requested are not covered",
 "The system test starts and stops an otherwise idle server once.",
 ["vtelem/telemetry/server.py", "vtelem/daemon/manager.py", "vtelem/factories/telemetry_server.py", "vtelem/daemon/telemetry.py", "vtelem/stream/writer.py"],
 "the server composes time keeper, telemetry, writer, command, websocket, TCP, UDP and HTTP daemons under one manager",
 [("daemon states", "what is running"), ("shared environment", "channels and metrics")],
 ["daemon states", "frames at clients", "progress in simulated time"])

prop("C22", "UDP outputs can be added, removed and fail at any time without affecting others",
 "Adding, removing, listing and failing UDP outputs concurrently with telemetry production leaves exactly the outputs that were added and neither removed nor failed; each of those keeps receiving every frame as one datagram, and each removed or failed output's socket is closed exactly once (a destination that isn't listening is not a failure). Removing an unknown or already removed output changes nothing. Operations through commands and through the API behave the same.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of additions, removals, listings and socket failures with the writer thread",
 "Tests add and remove one client while nothing fails.",
 ["vtelem/classes/udp_client_manager.py", "vtelem/factories/udp_client_manager.py", "vtelem/stream/writer.py", "vtelem/mtu.py"],
 "the manager keeps sockets by stream identifier; writer errors call back into the manager to close them",
 [("client map", "open UDP outputs")],
 ["datagrams received per destination", "socket states", "list command result"])

prop("C23", "A frame that was altered or cut in transit is never reported as valid data",
 "A frame sent with an integrity check is decoded to exactly what was encoded, and when its payload bytes are altered, or it is truncated or extended in transit, decoding reports failure rather than wrong content. Decoding arbitrary bytes never raises. Frames of other applications are rejected when an application identifier is expected.",
 ["fault_sequences", "inputs"],
 "all byte corruptions after the fixed header, truncations and extensions of frames of every type on a simulated faulty link, and arbitrary byte strings (alterations that make content take up the place of the check itself are a known finding)",
 "Tests flip one checksum; they do not corrupt payloads on a link or feed random bytes.",
 ["vtelem/parsing/encapsulation.py", "vtelem/parsing/frames.py", "vtelem/frame/__init__.py", "vtelem/classes/byte_buffer.py"],
 "frames end with a CRC over header and payload that the decoder verifies",
 None, ["result of decoding at the receiving end"])

prop("C24", "Programs that run a daemon or a server always end cleanly",
 "A program that serves a daemon, a server or the command-line application until its main part ends finishes in bounded time with every worker stopped and every socket of its services closed, whether the main part returns, raises, runs out of time, is shut down over an interface or is interrupted while it waits. Its result or error is passed on unchanged. If it can't be started completely (no more threads, a port in use, bad arguments) it fails and leaves nothing running.",
 ["schedules", "fault_sequences", "crash_points"],
 "all moments of returning, raising, interrupting, timing out or requesting a shutdown, relative to all workers, and failures of any thread start",
 "Tests serve a daemon once with a main part that returns, and run the application once with an uptime.",
 ["vtelem/app.py", "vtelem/entry.py", "vtelem/daemon/__init__.py", "vtelem/daemon/http.py", "vtelem/telemetry/server.py"],
 "serve(), booted() and await_shutdown() stop in finally blocks; the server signals its end through a semaphore",
 None, ["result or error of the program", "live threads and open sockets at its end"])

prop("C25", "Everyone who listens to a server decodes exactly what applications published",
 "Whatever is attached to a running server (TCP, UDP and websocket clients, telemetry files replayed afterwards, in-memory streams and queues), each consumer decodes a gap-free run of one and the same sequence of frames, from its attachment to its removal. Every value in it is one its channel held, channels of a group that are emitted together come from the same write, times never run backwards, and the changes of a tracked channel form one unbroken chain. What was published last reaches everyone who stays.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of writers, dispatch, the writer's outputs, servers and clients, and all moments of attaching and detaching of each kind of consumer",
 "Tests check one consumer at a time with one or two frames; none compares what several consumers of one server decode, or follows values from the application to them under concurrency.",
 ["vtelem/telemetry/server.py", "vtelem/telemetry/environment.py", "vtelem/stream/writer.py", "vtelem/daemon/tcp_telemetry.py", "vtelem/daemon/websocket_telemetry.py", "vtelem/client/tcp.py", "vtelem/client/udp.py", "vtelem/client/file.py", "vtelem/daemon/telemetry.py"],
 "the telemetry daemon dispatches frames into the writer, which copies each to every stream and queue in order",
 None, ["frames and values decoded by every consumer"])

prop("C30", "Primitive values survive encoding and decoding for every type and byte order",
 "Any valid value of any primitive type written into a buffer at any position reads back equal, and invalid values are rejected and leave the stored value unchanged.",
 ["inputs"], "all primitive types, values and buffer positions",
 "Tests sample a few values per type.",
 ["vtelem/classes/type_primitive.py", "vtelem/classes/byte_buffer.py", "vtelem/enums/primitive.py"],
 "struct formats and range validators per primitive type", None, ["values read back"])

prop("C31", "Serializables round-trip through JSON and schemas accept exactly valid ones",
 "Encoding any serializable object to JSON and loading it back yields an equal object, and schema validation accepts exactly the objects that conform to their schema.",
 ["inputs"], "all serializable types and contents",
 "Tests round-trip one instance of each.",
 ["vtelem/classes/serdes.py", "vtelem/classes/user_enum.py", "vtelem/serializables/primitive.py", "vtelem/schema/manager.py"],
 "JSON encoders, int-key coercion and Cerberus schemas", None, ["loaded objects, validation results"])

prop("C32", "HTTP bodies and headers are parsed according to their content type",
 "URL-encoded and multipart form bodies with any field names and contents are parsed into exactly the fields and lines sent, and content-type and content-disposition headers into their type and parameters.",
 ["inputs"], "all header values, boundaries and bodies",
 "Tests parse two example bodies.",
 ["vtelem/classes/http_request_mapper.py"],
 "string splitting parsers for headers and multipart bodies", None, ["parsed dictionaries"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
