#!/usr/bin/env python3
"""Source of /verif/properties.jsonl. Run: python3 tools/properties.py"""
import json, os

def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}

PROPS = [
P("C01", "Frames follow the documented layout and survive any split of the stream",
  "Every message an endpoint emits is one frame in the documented layout (little-endian body length, reserved byte, command, flags, method length, 64-bit sequence, method, body) carrying exactly the caller's method and payload, and frames are never interleaved, truncated, merged, duplicated or reordered on a connection. A receiver recovers exactly those messages in that order however the bytes are fragmented or coalesced, up to and including the configured maximum body length, and whatever batching, buffer-size and write-mode options are set.",
  ["inputs", "configurations", "schedules"], "all methods (1..127 bytes), payloads, commands, fragmentations of the byte stream and option combinations",
  "Tests send a handful of short messages over loopback TCP with default options; they never look at the raw bytes, never split a frame, and never fill the send queue so that batching happens.",
  ["proto.go", "handler.go", "client.go", "README.md"],
  [("frame construction", "proto.go newMessage"), ("header/body read", "handler.go Recv, proto.go Header.message"), ("send loops and batching", "client.go normalSendLoop, batchSendLoop")],
  ["bytes on the net.Conn", "Context.Message in handlers"]),

P("C02", "Every call completes with the response to that very request",
  "Any number of concurrent synchronous and asynchronous calls, in both directions of a connection, each complete with the response produced for that very request, and the remote handler runs exactly once per request on a healthy connection. Late, duplicate, unsolicited or out-of-order responses never complete another call, never complete a call twice, and never disturb the connection or later calls.",
  ["schedules", "inputs", "histories"], "all interleavings of concurrent calls, handler delays, response permutations, duplicates and unknown sequence numbers",
  "Tests issue calls one at a time against a well-behaved server, so two responses are never outstanding together and a duplicate or stale response never occurs.",
  ["client.go", "handler.go", "context.go", "proto.go"],
  [("sequence allocation", "client.go newRequestMessage"), ("pending-call table", "client.go addSession/deleteSession, addAsyncHandler"), ("response dispatch", "handler.go OnMessage"), ("response construction", "context.go write")],
  ["return value of Call/CallContext, CallAsync callback", "handler invocations"]),

P("C03", "A synchronous call always returns by its deadline, and early on connection loss",
  "A synchronous call returns no later than its timeout or context end, succeeding if the response arrived before that; if the connection is lost or the client is stopped first, it returns at that point with the reconnecting or stopped error instead of waiting for the deadline. This holds in both call directions, whatever the peer does: answers late or never, disconnects at any byte, or stops reading so the send queue fills up.",
  ["schedules", "fault_sequences", "inputs"], "all peer behaviours (delay, silence, disconnect at any byte offset, stalled reads), timeouts and contexts",
  "Tests check one 200 ms timeout on the wall clock; they do not cut a connection while calls are pending and cannot check that the call returns at the deadline rather than somewhat later.",
  ["client.go", "handler.go"],
  [("timer/close select", "client.go Call, CallContext"), ("pending calls failed on disconnect", "client.go recvLoop clearSession, closeAndClean"), ("queued calls failed while reconnecting", "client.go dropMessage")],
  ["return time and error of Call/CallContext"]),

P("C04", "An accepted asynchronous call invokes its callback exactly once",
  "When CallAsync reports success, its callback is invoked exactly once: with the response, with a timeout error at the deadline if no response came before it, or with an error when the connection is lost. A callback is never invoked twice, is never invoked with another call's response, and is not left uninvoked because of a disconnect, a reconnect, a stop or a full send queue.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of responses, timeouts, disconnects, reconnects and stops with outstanding asynchronous calls",
  "The one async test waits for one response and one timeout; callbacks outstanding at a disconnect (let alone several) are never exercised.",
  ["client.go", "handler.go"],
  [("callback table and timer", "client.go CallAsync"), ("hand-off on disconnect", "client.go clearAsyncHandler, dropMessage"), ("response dispatch", "handler.go OnMessage")],
  ["callback invocations"]),

P("C05", "Replies, error texts and argument errors reach the caller unchanged",
  "The value a handler writes is what the caller's response variable holds (strings and byte slices as they are, everything else by way of the codec of that endpoint), an error a handler returns is an error with exactly that text at the caller, and calling a method nobody registered yields the method-not-found error. Calls with an empty or over-long method, a zero or negative timeout, or a missing callback are rejected with the documented error and nothing is sent.",
  ["inputs", "configurations"], "all payload values of the supported kinds, error texts, methods and argument combinations",
  "Tests use one string, one byte slice, one struct and one error text; boundary lengths and byte values are not varied.",
  ["client.go", "context.go", "util/util.go", "codec/codec.go", "proto.go", "handler.go"],
  [("response encoding", "context.go write/writeDirectly"), ("response decoding", "client.go parseResponse"), ("argument checks", "client.go check*Args, proto.go checkMethod"), ("not-found route", "handler.go handle")],
  ["results of Call/CallContext/CallAsync, bytes on the wire"]),

P("C06", "Notifications and synchronous handlers: exactly once, in order, never answered",
  "Each notification accepted on a healthy connection is handled exactly once, and handlers registered as synchronous process the messages of one connection one at a time in the order they were sent, while asynchronous ones do not block the messages behind them. A notification never produces a response: responding to one fails with the dedicated error and sends nothing.",
  ["schedules", "inputs", "configurations"], "all sequences of notifications and calls, handler modes and delays, and option combinations",
  "The notify tests send one message and sleep; order, duplication and loss across many messages are not observed.",
  ["handler.go", "client.go", "context.go"],
  [("dispatch", "handler.go OnMessage"), ("send queue", "client.go Notify/pushMessage"), ("notify reply guard", "context.go write/writeDirectly")],
  ["handler invocations, bytes on the wire"]),

P("C07", "The send queue never loses an accepted message nor sends a refused one",
  "On a healthy connection a message whose push/notify call returned success is delivered exactly once and in queue order, and one that was refused (queue full, timeout, stopped) is never delivered. A zero-timeout push never blocks and fails with the overstock error exactly when the queue is full, reporting it to the overstock callback; a positive timeout waits at most that long; a negative push timeout waits until there is room.",
  ["schedules", "inputs", "configurations"], "all queue sizes, push patterns, timeouts and stall/resume patterns of the peer",
  "Tests never fill the queue; with the default capacity of 4096 and a reading peer the refusal paths do not run.",
  ["client.go", "handler.go"],
  [("bounded queue selects", "client.go PushMsg, pushMessage, NotifyContext"), ("overstock callback", "handler.go OnOverstock"), ("send loops", "client.go")],
  ["errors returned, frames on the wire, overstock callback"]),

P("C08", "Streams deliver every value once, in order, then EOF, in isolation",
  "On a healthy connection each direction of a stream delivers exactly the non-empty values that were sent, in order, and then EOF once the sender has closed (including the last value sent together with the close); concurrent streams, in either direction, never exchange or lose values, and the handler of a stream runs once. After the close of the sending side further sends fail; a blocked or later receive ends with EOF or an error, never a hang or a crash, when the stream is closed, its context ends or the connection is lost.",
  ["schedules", "inputs", "histories", "fault_sequences"], "all numbers of streams, value sequences, directions, close orders, receive variants, queue sizes and disconnect points",
  "There is no stream test at all.",
  ["stream.go", "handler.go", "client.go"],
  [("per-stream queue", "stream.go onMessage/Recv"), ("half close and EOF flag", "stream.go CloseSendContext, CloseRecv, halfClose"), ("stream tables", "client.go getStreamAndPushMsg, clearStream, handler.go OnMessage")],
  ["Stream.Recv/RecvContext/Send results, stream handler invocations"]),

P("C09", "A dialed client survives connection loss, within its reconnect budget",
  "After losing its connection a dialed client keeps re-dialing until it succeeds, is stopped, or has used the configured maximum number of attempts for that loss (unlimited when none is set); on success it reports the connection through the connected callback once and serves calls and incoming messages as before. While disconnected, new calls fail immediately with the reconnecting error; when the attempts are used up the client is stopped: the disconnected callback runs once and later calls report the stopped error.",
  ["fault_sequences", "schedules", "configurations"], "all sequences of dial failures, connection cuts at any point and operations in between",
  "The reconnect test restarts the server once on wall-clock sleeps and is known to race.",
  ["client.go", "handler.go"],
  [("reconnect loop", "client.go recvLoop"), ("state checks", "client.go CheckState"), ("reconnect budget", "handler.go MaxReconnectTimes")],
  ["dialer invocations, callbacks, call results"]),

P("C10", "Stop is final and leaves nothing behind",
  "After a client (dialed or accepted by a server) is stopped or its peer is gone for good, at any moment including while a reconnect or a handler is in progress, its connection is closed, its pending operations end, its disconnected callback runs exactly once, and no goroutine of it remains. A client can be restarted at any moment, running, reconnecting or stopped: what it was doing ends as with a stop, and it then works like a new one, on one new connection which carries nothing of the former run.",
  ["schedules", "fault_sequences", "histories"], "all points at which Stop or a disconnect can occur relative to dialing, handling, sending and other stops",
  "Tests stop clients only when idle and look neither at leftover goroutines and connections nor at the callback count.",
  ["client.go", "server.go", "handler.go"],
  [("stop flag and cleanup", "client.go Stop, closeAndClean, recvLoop"), ("queue drain", "client.go send loops"), ("restart", "client.go Restart")],
  ["net.Conn.Close, callbacks, goroutines, call results"]),

P("C11", "No byte sequence from a peer can crash or wedge an endpoint",
  "Whatever bytes a peer sends, to a server or to a client, with or without coding middleware, the process does not crash, a frame announcing a body above the configured maximum is refused by closing that connection without allocating for it, and other connections are served as before. A well-framed but meaningless message (unknown method, bad method length, unsolicited response, unknown stream, undecodable payload) reaches no handler of another method, and does not stop the connection from serving the valid messages around it.",
  ["inputs", "histories", "configurations"], "all byte sequences, mutated valid traffic, and body-length limits",
  "Tests only send frames produced by the library itself.",
  ["handler.go", "proto.go", "client.go", "extension/middleware/coder", "extension/pubsub"],
  [("length limit", "proto.go Header.message"), ("method length check and panic recovery", "handler.go OnMessage, util.Recover"), ("invalid command closes the connection", "handler.go OnMessage")],
  ["process exit, connection state, answers to valid requests"]),

P("C12", "Middleware and routes run in registration order; clones are independent",
  "For every message the middleware and the handler of its route run in registration order, each at most once, skipping everything after an abort; unknown methods run the middleware and the not-found handler instead. A panic in a handler or in the callback of an asynchronous call is contained to that message, and registrations on a cloned handler or on a server's or client's own handler never affect another one's routes, middleware, coders or options.",
  ["programs", "inputs"], "all registration programs (use, handle, not-found, clone in any order) and abort/next/panic placements",
  "Tests register a handful of no-op middlewares and check neither order nor abort nor isolation after cloning.",
  ["handler.go", "context.go", "server.go", "extension/middleware/router"],
  [("route chains", "handler.go Use/handle"), ("chain cursor", "context.go Next/Abort"), ("deep copy", "handler.go Clone"), ("panic recovery", "handler.go OnMessage, util.Safe")],
  ["handler invocation order"]),

P("C13", "Coding middleware is transparent end to end",
  "When both ends register the same coders, they are applied in registration order on sending and in reverse on receiving, so calls, notifications, errors, broadcasts and streams carry exactly the same methods, payloads and flags as without coders. Gzip, msgpack and value-appending (tracing) coders restore every payload and deliver the attached values, whatever the sizes, and a value that cannot be attached never damages the message.",
  ["inputs", "configurations"], "all coder stacks, payloads, thresholds, attached values and message kinds",
  "The only coder test is a stateless XOR of one message; the bundled coders have no tests.",
  ["client.go", "handler.go", "context.go", "extension/middleware/coder"],
  [("encode/decode order", "client.go send paths, handler.go OnMessage"), ("bundled coders", "extension/middleware/coder/*"), ("broadcast messages", "server.go Broadcast")],
  ["payloads and values at handler and caller"]),

P("C14", "Server load accounting and its set of clients are exact",
  "At every quiescent point the server's current load and the clients visited by its iteration functions are exactly the live accepted connections, the accepted counter is their running total, and the load never exceeds the configured maximum: an excess connection is closed without being served and room is given back as connections end. Each accepted connection is reported once as connected and once as disconnected, and neither a temporary accept error nor a panic in a function given to an iteration function or broadcast (which its caller recovers) stops the server.",
  ["histories", "schedules", "fault_sequences"], "all sequences of connects, disconnects from either side, stops and accept errors under any limit",
  "Tests call the counters' increment and decrement once; no test connects past the limit or disconnects.",
  ["server.go", "client.go"],
  [("load counters", "server.go runLoop addLoad/subLoad"), ("client set", "server.go addClient/deleteClient"), ("accept error handling", "server.go runLoop")],
  ["Server.CurrLoad/Accepted, ForEach, callbacks, connection state"]),

P("C15", "A broadcast reaches each selected live client exactly once, intact",
  "A broadcast is delivered exactly once and byte-for-byte intact to every client connected (and accepted by the filter) when it is issued and whose queue has room, and to nobody else. This holds with concurrent broadcasts, with other traffic, and with any number of clients, whether or not buffer pooling or coders are enabled.",
  ["schedules", "inputs", "configurations"], "all client sets, filters, payloads and concurrent traffic",
  "Broadcast has no test.",
  ["server.go", "client.go", "proto.go"],
  [("shared message reference count", "proto.go Retain/Release, server.go Broadcast*"), ("per-client push", "client.go PushMsg")],
  ["notifications received by each client"]),

P("C16", "Buffer pooling is invisible: no payload ever changes or is shared",
  "With pooling enabled on either side, every call, notification, stream value, broadcast and publication carries the same bytes as without pooling, even while other messages are being allocated and released. Buffers handed out by the allocator have the requested length, keep their contents across growing and appending, and never overlap another buffer that is still in use.",
  ["histories", "schedules", "inputs"], "all allocation/growth/free histories and all message workloads with pooling on",
  "Neither the allocator nor pooling has a test; a double release only shows as corruption of an unrelated later message.",
  ["allocator.go", "proto.go", "handler.go", "client.go", "context.go", "stream.go", "extension/pubsub"],
  [("allocator", "allocator.go BufferPool"), ("ownership of message buffers", "proto.go Release, handler.go EnablePool/OnMessageDone/OnContextDone")],
  ["payloads at handlers and callers, allocator results"]),

P("C17", "A client pool hands out healthy clients in turn",
  "A pool holds one client per requested slot or dialer, or none at all (every opened connection closed again) if any dial fails. With all clients healthy, successive picks visit every client equally often, also from concurrent goroutines; when some are down a pick returns a healthy one as long as one exists.",
  ["histories", "schedules", "configurations"], "all pool sizes, dial failures, sets of down clients and pick sequences",
  "The pool test makes ten picks on a healthy pool.",
  ["client.go"],
  [("round robin", "client.go ClientPool.Next/Get"), ("construction and rollback", "client.go NewClientPool, NewClientPoolFromDialers")],
  ["clients returned, connections opened and closed"]),

P("C18", "Pub/sub: every current subscriber gets each publication once, intact",
  "A publication, from the server or from an authenticated client, is delivered exactly once with its exact topic, data and timestamp to every client whose subscription to that topic was confirmed before and not withdrawn, and to no other; publish-to-one reaches exactly one of them. It runs the callback of the latest confirmed subscription, also when it comes right behind the confirmation; a refused subscribe or unsubscribe changes nothing, and a malformed publication runs no callback. A subscriber that does not read may miss publications but keeps no other from theirs. Empty topic names and names of more than 1024 bytes are refused with an error. A topic callback may itself subscribe, unsubscribe or publish, and publishing never modifies the caller's data.",
  ["histories", "inputs", "schedules"], "all histories of subscribe, unsubscribe, publish and disconnect over any topics and payloads",
  "The single test publishes three fixed strings to one subscriber.",
  ["extension/pubsub/client.go", "extension/pubsub/server.go", "extension/pubsub/topic.go"],
  [("topic membership", "pubsub/server.go onSubscribe/onUnsubscribe, topic.go TopicAgent"), ("topic encoding", "pubsub/topic.go toBytes/fromBytes"), ("dispatch", "pubsub/client.go onPublish")],
  ["topic callbacks"]),

P("C19", "Pub/sub: only authenticated clients take part; subscriptions survive reconnects",
  "A client that has not presented the server's password can neither subscribe, unsubscribe nor publish: nothing it sends reaches anyone and it receives nothing. Authenticating again changes nothing; after a lost connection an authenticated client is authenticated and subscribed again to all its topics without any user action, and a disconnected client is no longer a subscriber.",
  ["histories", "inputs", "fault_sequences"], "all histories of authentication attempts, operations and disconnects, and all passwords",
  "The test authenticates once with the right password.",
  ["extension/pubsub/client.go", "extension/pubsub/server.go"],
  [("authentication mark", "pubsub/server.go onAuthenticate/invalid/addClient"), ("resubscription", "pubsub/client.go initTopics"), ("cleanup", "pubsub/server.go deleteClient")],
  ["topic callbacks, call errors"]),

P("C20", "The split listener gives each connection to exactly one side, within the limit",
  "Every connection accepted by the split listener is returned by exactly one of its two sides, unharmed and in arrival order per side; the first side never holds more than its configured number of connections not yet reported offline, connections beyond that go to the second side, and a reported departure makes room again. Closing one side ends that side only; what arrives for it waits for the side to be taken up again. After closing the listener, both sides report it closed and no accepted connection is left open undelivered.",
  ["histories", "configurations", "fault_sequences"], "all arrival/departure histories and limits",
  "The listener has no test.",
  ["extension/listener/listener.go"],
  [("online counter and routing", "listener.go Run/OfflineA"), ("close handling", "listener.go Close, ChanListener.Accept")],
  ["connections returned by Accept on each side"]),

P("C21", "WebSocket and QUIC connections behave as byte-stream net.Conns",
  "Bytes written to a websocket or QUIC connection come out at the other end complete and in order whatever the write and read sizes, concurrent writes are not mixed and do not crash, and after the writer closes the reader gets the remaining bytes and then an error. Closing a connection ends its own reads and writes in progress, and so does a deadline. RPC over these transports behaves as over TCP; a listener serves its clients whatever others do, and once closed accepts nothing and leaves no connection open that nobody will accept.",
  ["inputs", "schedules"], "all write/read size sequences, concurrent writers and closes",
  "Each transport test sends one five-byte message.",
  ["extension/protocol/websocket/websocket.go", "extension/protocol/quic/quic.go"],
  [("message-to-stream adaptation", "websocket.go Conn.Read/Write"), ("listener hand-over", "websocket.go Listener"), ("stream wrapping", "quic.go")],
  ["bytes read"]),

P("C22", "The HTTP entry point serves each request like an RPC connection",
  "A request frame posted over HTTP to a synchronous handler produces as response body exactly the response frame the same request would produce on a connection (same sequence, method, flags and payload), a notification produces an empty body, and concurrent requests do not affect each other. A body that is not a valid frame never crashes the server and produces no response frame for anyone else.",
  ["inputs", "schedules"], "all request frames, arbitrary bodies and concurrent requests",
  "The HTTP handler has no test.",
  ["extension/arpchttp/handler.go", "handler.go", "context.go"],
  [("per-request client", "arpchttp/handler.go Handler"), ("direct write", "context.go writeDirectly")],
  ["HTTP response bodies"]),

P("C23", "Service discovery hands out exactly the reachable registered nodes",
  "Asking for a service returns a client of a currently registered, connected node of that service, weighted round robin over its nodes, not-found when the service has no node, and unreachable when none of its nodes is connected. Adding a node twice, deleting it, or it becoming reachable only later never leaves a stale node selectable, a reachable node unselectable, a connection to a removed node open or attempts to connect to it going on.",
  ["histories", "fault_sequences"], "all histories of add, delete, node up/down and queries",
  "The micro package has no test.",
  ["extension/micro/service.go"],
  [("node list", "micro/service.go addByAddr/delete/next"), ("late connection", "micro/service.go AddServiceNodes retry")],
  ["ClientBy results, connections per node"]),

P("C24", "Redis discovery mirrors the registry: joins, leaves, expiry, outages",
  "A registered service becomes known to every discovery of its namespace with its name, address and weight within one refresh interval, stays known while it is registered, and is removed within one interval after it is stopped or its registration expires; a stopped registration is never renewed. An unreachable or failing registry does not remove services that are known, and malformed registry entries are ignored and cleaned up. Nothing stays connected to the registry after Stop, which may be repeated.",
  ["histories", "fault_sequences"], "all histories of register, stop, expiry, registry failures and malformed entries",
  "The redis integration has no test.",
  ["extension/micro/redis/discovery.go", "extension/micro/redis/register.go"],
  [("refresh and diff", "redis/discovery.go updateServices"), ("lease renewal", "redis/register.go keepalive/Stop")],
  ["AddServiceNodes/DeleteServiceNodes calls, registry contents"]),

P("C25", "What is sent is the value at call time; received data is the receiver's own",
  "The payload delivered is the value the argument had when the call, notification, push, stream send or publication was made: changing or reusing the caller's memory after the function returned never changes what is delivered (attached values included), and the library never writes to the caller's memory. Data stored into a caller's response or stream variable is the caller's own and never changes afterwards.",
  ["inputs", "schedules", "configurations"], "all payload kinds, slices with spare capacity, queue delays and options",
  "Tests never modify a payload after sending it.",
  ["proto.go", "util/util.go", "client.go", "stream.go", "extension/pubsub/topic.go"],
  [("copy into frame", "proto.go newMessage"), ("copy out", "client.go parseResponse, util.BytesToValue")],
  ["payload at receiver, caller memory"]),

P("C26", "Message, context and client attributes are independent and exact",
  "Setting any header attribute of a message (command, error, async, stream and user flag bits, method length, body length, sequence) makes its getter return that value and changes no other attribute nor the payload; out-of-range flag indexes are refused. Key-value pairs set on a message, context or client are returned by their getters until overwritten or deleted, and messages built through any constructor carry exactly the requested command, flags, method, payload, sequence and values. After a handler responded, its context reports as response error exactly the error it responded with (none for a successful response).",
  ["inputs", "histories"], "all attribute values and setter sequences",
  "Tests set each attribute once on a fresh message.",
  ["proto.go", "context.go", "client.go", "server.go", "handler.go"],
  [("bit fields", "proto.go Set*/Is*"), ("constructors", "proto.go NewMessage, handler.go NewMessage, client.go/server.go NewMessage")],
  ["getters, Message.Buffer"]),

P("C27", "Graceful shutdown finishes accepted requests and runs no new ones",
  "With the graceful middleware installed first, its shutdown returns only after every request whose handler had started has finished and been answered, and a request arriving after shutdown began is answered with the shutting-down error without its handler running. The recover middleware contains panics, and the bundled middlewares leave the results of requests unchanged.",
  ["schedules", "histories"], "all interleavings of requests of any duration with the shutdown",
  "The middleware package has no test.",
  ["extension/middleware/router"],
  [("in-flight counter and flag", "router/graceful.go"), ("panic containment", "router/recover.go")],
  ["handler invocations, call results, return time of Shutdown"]),

P("C28", "Keepalive and read/write timeouts act exactly as configured",
  "A connection with a read timeout is dropped when, and only when, no message arrives for that long; keepalive pings sent more often than the peer's read timeout keep an otherwise idle connection alive, are answered with a pong, and stop when the client stops. A write that cannot make progress within the write timeout drops the connection, and the configured before-receive and before-send hooks run for every receive and send, their error dropping the connection.",
  ["schedules", "configurations", "inputs"], "all timeouts, keepalive intervals, traffic patterns and stalls",
  "Tests set a 60 s timeout that never expires and never call keepalive.",
  ["client.go", "handler.go"],
  [("deadlines", "handler.go Recv/Send"), ("keepalive timer", "client.go Keepalive/Ping"), ("ping answer", "handler.go OnMessage")],
  ["time of disconnect, frames on the wire"]),

P("C29", "The JavaScript client speaks the same protocol as the Go side",
  "Over a websocket the JavaScript client resolves every call with the response to that call (data or error), with a timeout error at its timeout, or with a disconnect error when the connection is lost, exactly once each, whatever the number of calls, the order of responses and their grouping into websocket messages. Frames it emits are valid frames of the documented layout, and notifications and requests from the server reach the handler registered for their method, whatever its name, with the right data. A call over HTTP is resolved likewise by the response to its HTTP request, or with an error when that fails.",
  ["inputs", "schedules", "histories"], "all sequences of calls, response orders, message groupings, timeouts and disconnects",
  "The JavaScript client has no test.",
  ["extension/jsclient/arpc.js"],
  [("frame writer", "arpc.js write"), ("frame reader and session table", "arpc.js _onMessage, call")],
  ["promise results, frames sent"]),

P("C30", "Logging filters exactly by level",
  "A log call produces exactly one line, carrying its level tag and its formatted text, when its level is at or above the configured one, and nothing otherwise; an invalid level setting changes nothing. A replaced logger receives every log call with its arguments, and logging with no logger set is harmless.",
  ["inputs", "histories"], "all sequences of level changes and log calls",
  "Tests call each function without looking at the output.",
  ["log/log.go"],
  [("level filter", "log/log.go logger"), ("delegation", "log/log.go package functions")],
  ["log output"]),

P("C31", "What has ended is not held on to",
  "Once a call has returned or its callback has run or its time is over, a notification was sent or given up, a stream was closed on both ends, a connection was lost or stopped, or a subscription ended, a client or server that goes on working no longer holds what belonged to it: callbacks, results, arguments, contexts and their values, messages, stream and connection objects can be reclaimed. Memory in use therefore follows what is open, not how much has happened (the names of topics ever used by a publish/subscribe server excepted).",
  ["histories", "schedules", "inputs"], "all histories of operations and their outcomes (answered, refused, timed out, cancelled, lost, late) on clients and servers that keep running",
  "A test sees results, not what stays referenced behind them; a leak shows only after very long histories.",
  ["client.go", "handler.go", "stream.go", "server.go", "context.go", "proto.go", "extension/pubsub/server.go", "extension/pubsub/client.go"],
  [("session and callback tables", "client.go sessionMap, asyncHandlerMap"), ("stream tables", "client.go streamLocalMap, streamRemoteMap"), ("connection table", "server.go clients"), ("subscriber tables", "extension/pubsub/server.go TopicAgent")],
  ["reachability of the objects given to or made by the operations"]),

P("C32", "etcd registration and discovery agree with what is registered",
  "With the etcd back end, a service registered under a new key is stored with its value and with a lease of the given TTL that is kept alive, and renewed if it is ever lost, until the register is stopped, when the key disappears at once; registering a key that exists, or a registration that etcd refuses, returns an error and changes nothing, and of several registrations of one key at the same time exactly one succeeds. Every discovery knows, when it is ready, the services registered before, and afterwards its service manager follows every registration, change and removal under its prefix and nothing else, whatever happens while it starts and however often the connection to etcd is lost, until it is stopped. Nothing stays connected after Stop or a failed start.",
  ["histories", "schedules", "crash points", "inputs"], "all histories of registrations, stops, lease losses, foreign changes, discoveries, refused requests and connection losses",
  "The repository has no test of the etcd back end: it needs a running etcd.",
  ["extension/micro/etcd/register.go", "extension/micro/etcd/discovery.go"],
  [("registration", "register.go NewRegister, Stop, listenTTL"), ("initial list and watch", "discovery.go init, watch")],
  ["keys, values and leases in etcd, calls on the service manager"]),
P("C33", "Stopping a server ends its service and all of its connections",
  "Once a server is stopped or shut down, at any moment and however often, it accepts no further connection, its serving function returns as soon as a connection being reported is dealt with, every connection it accepted is closed and reported as disconnected once, calls in progress on them end with an error instead of waiting for their timeouts, and its load is zero. Shutdown reports success only after the service has ended, or the timeout error exactly when its context ends before. A stopped server can serve again and works like a new one.",
  ["schedules", "histories", "crash points"], "all histories of connections, calls, accept errors and stops, at any instants",
  "Tests stop a server once, at rest, and do not look at what is left.",
  ["server.go"],
  [("accept loop", "server.go runLoop, clearClients"), ("stop", "server.go Stop, Shutdown")],
  ["open connections, callbacks, load, return times of Serve, Stop and Shutdown"]),
]

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(PROPS), "properties")
