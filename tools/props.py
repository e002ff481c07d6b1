p("C01", "Length-field framing is exact for every stream, cut and configuration",
  "For every length-field configuration and every way a byte stream is cut into reads, the frame decoder delivers exactly the frames a whole-stream parse delivers: in order, complete, each exactly once, with bytes that no later input changes, and an incomplete tail is held until its rest arrives. A frame longer than the configured maximum is skipped in its entirety, however it is cut, and the frames after it are still delivered exactly. A malformed length field (negative, or shorter than the header it sits in) never crashes the process, never makes decoding loop forever and never yields bytes that are not a frame.",
  ["inputs", "histories", "configurations"], "every stream over a small alphabet of lengths, every segmentation of it, every length-field geometry (offset, width, adjustment, strip, endianness, maximum)",
  "The tests decode one well-formed frame in one piece; segmentation, oversize frames and malformed lengths multiply into a space only enumeration reaches.",
  ["zinterceptor/framedecoder.go", "ziface/ilengthfield.go"],
  [("FrameDecoder.Decode", "zinterceptor/framedecoder.go"), ("FrameDecoder.decode / failIfNecessary / discarding state", "zinterceptor/framedecoder.go")],
  ["frames returned by Decode"], "seq", "Geometry and length alphabets are small; payload bytes are symbolic tags, not values.")
p("C02", "Packing, unpacking and the TLV/LTV/HTLV codecs round-trip exactly",
  "Whatever message id and payload is packed by any of the built-in wire formats is recovered bit for bit by that format's unpacker and by its stream decoder on the receiving side, and the packed bytes are exactly the documented layout. A header announcing more data than the configured maximum packet size is refused, and an HTLV-CRC frame with any corrupted byte is never delivered as a message. No received frame, however short or malformed, crashes a codec. A server or client reads and writes every message in the format it was given as an option or by a setter, built in or the user's own.",
  ["inputs", "configurations"], "all boundary ids and lengths, every payload length in the bound, every single-byte corruption and truncation of a frame; servers and clients with each format on every transport, every place to cut the stream",
  "The tests pack two fixed messages; truncations, corruptions and boundary lengths are never tried.",
  ["zpack/datapack_tlv_bigendian.go", "zpack/datapack_ltv_littleendian.go", "zpack/message.go", "zpack/packfactory.go", "zdecoder/tlvdecoder.go", "zdecoder/ltvdecoder_little.go", "zdecoder/htlvcrcdecoder.go", "zdecoder/crc.go"],
  [("Pack/Unpack", "zpack/*.go"), ("Intercept/decode of the decoders", "zdecoder/*.go"), ("CRC check", "zdecoder/crc.go"), ("SetPacket, SetDecoder, WithPacket, WithPacketClient", "znet")],
  ["Pack/Unpack results", "IRequest passed on by a decoder"], "seq", "Payload contents are a few patterns per length.")
p("C03", "Messages of a connection are handled in order, exactly once, one at a time",
  "For every connection on every transport (TCP, WebSocket, KCP) and every worker-pool mode, each complete message the peer sends reaches its registered handler exactly once, in the order sent, carrying the right connection, message id and data, no matter how the bytes are segmented and how other connections are scheduled. Handlers of the same connection never run at the same time.",
  ["schedules", "inputs", "configurations"], "all interleavings of reader, worker and peer goroutines within the deviation bound, all listed segmentations, all transports and modes",
  "Tests send a few messages over one socket and look at logs; an order or duplication bug needs a particular interleaving of readers and workers.",
  ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/msghandler.go", "znet/chainbuilder.go", "zinterceptor/framedecoder.go"],
  [("one reader goroutine per connection, one task queue per worker, connection-to-worker mapping", "znet/msghandler.go SendMsgToTaskQueue/StartOneWorker")],
  ["handler invocations"], "sched")
p("C04", "Bind modes give every live connection a worker of its own",
  "In Bind and DynamicBind mode, as long as the connection limit is respected, two live connections never share a worker: a handler that blocks on one live connection never delays another connection's messages. When a connection ends, its worker becomes available again without being shared, lost, or left processing a queue nobody feeds, over any history of connects and disconnects, and messages of connections that come later are still handled.",
  ["schedules", "histories", "configurations"], "all histories of connects and disconnects up to the depth and all interleavings of a disconnect with a connect",
  "No test opens and closes connections in Bind or DynamicBind mode; worker reuse depends on history and on the race between teardown and accept.",
  ["znet/msghandler.go", "znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/server.go"],
  [("useWorker/freeWorker, freeWorkers and extraFreeWorkers sets", "znet/msghandler.go")],
  ["progress of handlers while another connection's handler is blocked", "GetWorkerID"], "sched")
p("C05", "Every message sent arrives whole, once and in order on the wire",
  "Each message a send call accepts appears on the peer's wire exactly once as one contiguous well-formed frame, even when several goroutines send on the same connection through the direct and the buffered calls at once and when frames exceed internal buffer sizes. Messages sent by one goroutine through the same call appear in the order sent. A send that reports success on a connection that is not closed is never lost, and a send on an open connection whose queue has room is accepted.",
  ["schedules", "inputs", "configurations"], "all interleavings of 2-3 senders with the writer goroutine within the bound, message sizes around the buffer boundaries, all transports",
  "Tests send from one goroutine; interleaving inside a frame or a lost first buffered message needs concurrent senders at a particular moment.",
  ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go"],
  [("msgLock, bufWriter, msgBuffChan and StartWriter", "znet/connection.go"), ("same for WebSocket and KCP", "znet/ws_connection.go, znet/kcp_connection.go")],
  ["bytes on the peer's side of the transport"], "sched")
p("C06", "Connection teardown runs exactly once and completely, whoever starts it",
  "However a connection ends - the peer hangs up, the application stops it, a heartbeat expires, a write fails, the server stops, or several of these at once - its start hook runs once before any of its messages is handled, its stop hook and every close callback run exactly once and after the start hook began, and afterwards it is unregistered, its socket is closed, its context is cancelled and none of its goroutines remains. Teardown always finishes: no combination of concurrent stops, sends and heartbeats deadlocks or crashes the process.",
  ["schedules", "fault_sequences"], "all interleavings of two or three concurrent causes of teardown within the bound, all transports",
  "Tests close one connection one way; the races between causes of teardown are never scheduled.",
  ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/connmanager.go", "znet/heartbeat.go", "znet/callbacks.go"],
  [("Stop/finalizer, isClosed, ctx cancel", "znet/*connection.go"), ("ConnManager.Remove", "znet/connmanager.go")],
  ["hook and callback invocations", "connection manager", "goroutines alive", "peer socket"], "sched")
p("C07", "Connection API calls are safe at any moment of the connection's life",
  "Any connection method - the send calls, stop, property and callback accessors, address and context accessors - may be called from any goroutine at any moment before, during or after the connection's start and stop without crashing the process or blocking forever. A send on a connection already closed reports an error and puts nothing on the wire.",
  ["schedules", "histories"], "all pairs and triples of API calls interleaved with start and stop within the bound, all transports",
  "Tests call the API on established connections from one goroutine only.",
  ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go"],
  [("isClosed checks, msgLock, ctx", "znet/*connection.go")],
  ["panics, deadlocks, returned errors, wire"], "sched")
p("C08", "The connection manager always mirrors the set of live connections",
  "At every quiet moment the connection manager holds exactly the live connections: lookup by id, by string id, the counts and the listings agree with one another and with it, connection ids are never reused, and removing, clearing and ranging affect exactly the connections concerned. The server never holds more than the configured maximum number of connections, on any transport or mix of transports.",
  ["schedules", "histories", "configurations"], "all interleavings of arrivals, departures and manager calls within the bound, all operation sequences up to the depth",
  "Tests never inspect the manager under concurrent connects and disconnects.",
  ["znet/connmanager.go", "znet/server.go", "znet/connection.go", "zutils/shard_lock_maps.go"],
  [("ConnManager over ShardLockMaps", "znet/connmanager.go"), ("MaxConn check in the accept loops", "znet/server.go"), ("cID atomic counter", "znet/server.go")],
  ["IConnManager results", "established sockets"], "both")
p("C09", "Heartbeats end silent connections in time and never end active ones",
  "With heartbeat checking on, a connection whose peer stays silent is ended (its custom dead-connection handler invoked when configured) after the configured silence has passed and no later than one check interval after that, while a connection whose peer sends a message within every silence limit is never ended by the checker; a heartbeat message is sent at every check interval while the connection is live. After a connection ends its checker stops and sends nothing more, and each connection has its own checker.",
  ["schedules", "histories"], "all placements of peer activity relative to check times within the bound, all interleavings of the checker with teardown",
  "Wall-clock tests sample a couple of timings.",
  ["znet/heartbeat.go", "znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/server.go", "znet/client.go"],
  [("HeartbeatChecker ticker loop, IsAlive, updateActivity", "znet/heartbeat.go, znet/*connection.go")],
  ["virtual-time of teardown and of heartbeats on the wire"], "sched", "Time is virtual and only advances when nothing else can run or where the bound allows a timer to fire first.")
p("C10", "Each request runs its router's stages exactly as documented",
  "A request whose id has a router runs PreHandle, Handle and PostHandle of that router once each in that order, except where the handler aborts, which skips the remaining stages, or jumps to another stage (Goto). A request whose id has no router, and a handler that panics at any stage, affect nothing else: no other handler runs for it, and later requests of the same and other connections are handled normally.",
  ["histories", "inputs", "schedules"], "all assignments of behaviours (return, abort, panic, goto) to stages over sequences of requests",
  "Tests use routers that simply return.",
  ["znet/msghandler.go", "znet/request.go", "znet/router.go"],
  [("Request.Call/next, HandleStep", "znet/request.go"), ("doMsgHandler and recover", "znet/msghandler.go")],
  ["sequence of stage invocations"], "both")
p("C11", "Router slices run their handler chain in registration order",
  "In router-slices mode a request runs, in order, the handlers in effect for its id - global middleware, then group middleware, then its own handlers - each at most once; a handler that calls next runs the rest of the chain nested inside itself, an aborting handler stops all handlers that have not started, and a panic ends only that request's chain. Registering handlers for one id or group never changes the chain of another; what cannot be registered (an id already taken, an id outside its group, a route of the other mode) is refused and changes nothing.",
  ["histories", "inputs", "programs"], "all programs of Use/Group/AddHandler registrations and all handler behaviours up to the bound",
  "Tests register a fixed chain.",
  ["znet/router.go", "znet/request.go", "znet/msghandler.go"],
  [("RouterSlices.Use/Group/AddHandler, GroupRouter", "znet/router.go"), ("RouterSlicesNext/Abort", "znet/request.go")],
  ["sequence of handler invocations"], "seq")
p("C12", "Interceptors see every request once, in the order registered",
  "Every message passes through the decoder and then the registered interceptors exactly once in the order registered, each receiving what the previous one passed on, before its handler is chosen by the resulting message id; an interceptor that does not pass a message on keeps it from all later interceptors and the handler. Concurrent connections sharing the interceptors never see each other's messages.",
  ["histories", "schedules", "inputs"], "all chains of up to three interceptors with every behaviour (pass, replace, drop), with one or two connections",
  "Tests have no interceptor chain beyond the built-in ones.",
  ["zinterceptor/chain.go", "znet/chainbuilder.go", "znet/msghandler.go"],
  [("chain.Proceed", "zinterceptor/chain.go"), ("chainBuilder head/body/tail", "znet/chainbuilder.go")],
  ["interceptor and handler invocations"], "both")
p("C13", "Request pooling is invisible to handlers and copies are independent",
  "With request pooling on, every handler observes the same request - connection, message, data, context values, response - it would observe with pooling off, and nothing set on one request is ever visible on another. A copy of a request stays valid and unchanged after the original is recycled.",
  ["schedules", "histories"], "all interleavings of two connections' requests with recycling, all sequences of set/get/copy up to the depth",
  "A stale field shows only when a recycled request is reused by a different message at the right moment.",
  ["znet/request.go", "znet/msghandler.go", "znet/connection.go"],
  [("RequestPool, GetRequest/PutRequest/Reset/Copy", "znet/request.go")],
  ["values read from IRequest in handlers"], "both")
p("C14", "The sharded concurrent map behaves like one atomic map",
  "Every operation of the sharded map (set, get, set-if-absent, update, remove, pop, conditional removal, bulk set, has) is linearizable with respect to a plain map under any concurrent use, and counts, key lists, item listings, iterations and JSON encodings taken when no writer is active are exactly the contents. Those snapshots never contain a duplicate key or a value never stored, return only what was present at some moment during the call, and always terminate.",
  ["schedules", "histories"], "all interleavings of 2-3 threads with 1-2 operations on colliding keys, all operation sequences up to the depth",
  "There is no concurrent test of the map.",
  ["zutils/shard_lock_maps.go"],
  [("per-shard RWMutex", "zutils/shard_lock_maps.go"), ("snapshot channels", "zutils/shard_lock_maps.go")],
  ["operation results"], "both")
p("C15", "Scheduled timers fire once, not early, not lost, and cancel for good",
  "A function scheduled through the timer scheduler runs exactly once, with its own arguments, never before its time by more than the documented tolerance and never later than the next scheduler step after it, whatever mix of delays is scheduled and however scheduling interleaves with the wheel's turning. A timer cancelled before it is due never runs, cancelling one timer affects no other, and ids are unique.",
  ["schedules", "histories", "inputs"], "all sets of 1-3 timers from a boundary-covering set of delays and of cancel times; all interleavings of create, cancel and tick within the bound",
  "Tests wait on wall-clock for a few timers.",
  ["ztimer/timerscheduler.go", "ztimer/timewheel.go", "ztimer/timer.go", "ztimer/delayfunc.go"],
  [("hierarchical time wheel, TimerScheduler.Start", "ztimer/timewheel.go, ztimer/timerscheduler.go")],
  ["virtual time of each callback"], "both")
p("C16", "Generated unique ids never repeat and grow within a process",
  "The id worker never returns the same id twice and each caller sees strictly increasing ids, however many goroutines draw concurrently and however many draws fall into one millisecond. Ids carry the worker's own machine number, so workers with different numbers never collide, and a machine number out of range is refused.",
  ["schedules", "histories", "inputs"], "all interleavings of 2-3 drawing threads, sequence overflow within a millisecond, all placements of clock steps",
  "There is no test that exhausts a millisecond or draws concurrently.",
  ["zutils/snowflake_uuid.go"],
  [("IDWorker mutex, sequence and millisecond rollover", "zutils/snowflake_uuid.go")],
  ["returned ids"], "both")
p("C17", "Asynchronous operations complete once and call back on the right worker",
  "An asynchronous operation's callback runs exactly once, after the operation has produced its result and with that result visible, whether it is registered before, while or after the operation finishes, and, on a server with a worker pool, it runs on the worker that serves the connection, never concurrently with that worker's handlers. When the connection ends before that, its callback still runs once, or is dropped without harm if the connection's worker ended with it. Operations submitted under the same id run one after another in submission order, and a panicking operation or callback prevents no other operation from completing.",
  ["schedules", "histories"], "all interleavings of completion with registration, and of submitters with workers, within the bound",
  "The example runs one operation with sleeps.",
  ["zasync_op/async_op.go", "zasync_op/async_op_result.go", "zasync_op/async_worker.go", "znet/request_func.go", "znet/msghandler.go"],
  [("AsyncOpResult flags and completeFunc", "zasync_op/async_op_result.go"), ("AsyncWorker queue", "zasync_op/async_worker.go")],
  ["callback invocations, thread they run on"], "sched")
p("C18", "Stopping a server closes its listeners and connections and returns",
  "Stopping a server returns, and afterwards every connection it had accepted has been torn down, connections that arrive during or after the stop do not survive, its listeners are closed, and its accept goroutines have ended. Starting and stopping may race with connects, disconnects and messages in any way without deadlock or crash.",
  ["schedules", "histories", "configurations"], "all interleavings of Stop with arrivals, departures and messages within the bound, all server modes",
  "Tests stop idle servers.",
  ["znet/server.go", "znet/connmanager.go"],
  [("exitChan, listener close, ClearConn", "znet/server.go")],
  ["return of Stop, peers' sockets, listeners, goroutines"], "sched")
p("C19", "The log file writer keeps every record whole, once and in order",
  "Every record written to a log file appears exactly once, whole and in write order across the current file and the (compressed) files it was rotated into, for any sequence of writes, size and day rotations, closes and concurrent writers, and a failed open, write, rename or compression loses no other record: writing resumes as soon as the fault is gone, and what has reached the files is never gone from them at any moment. No file exceeds the size limit by more than one record or mixes the records of two days, and expiry removes exactly the rotated files of this log that are older than the configured number of days.",
  ["histories", "fault_sequences", "schedules"], "all sequences of writes, time steps and injected file faults up to the depth; all interleavings of two writers",
  "The tests write a few lines to a real file.",
  ["zutils/witer.go", "zlog/logger_core.go"],
  [("Writer.Write/rotate/daemon", "zutils/witer.go")],
  ["contents of the (in-memory) file system"], "both")
p("C20", "Logger lines are whole, filtered by level and correctly labelled",
  "Each log call at or above the configured level produces exactly one line in the output carrying its level's prefix, the message and the selected header fields, and each call below the level produces nothing, whatever is logged or reconfigured concurrently. Lines of concurrent callers never mix, a hook sees every emitted line exactly once, and the panicking and fatal calls panic or exit only after their line is out.",
  ["schedules", "histories", "configurations"], "all level and flag settings, all sequences of calls up to the depth, all interleavings of two callers and a reconfiguration",
  "Tests print to the terminal and assert nothing.",
  ["zlog/logger_core.go", "zlog/stdzlog.go", "zlog/default.go"],
  [("OutPut with mutex and buffer, isolationLevel", "zlog/logger_core.go")],
  ["bytes written to the output"], "both")
p("C21", "User configuration overrides exactly the fields it sets",
  "A server built from a user configuration runs with every field the user set and with the default (or the configuration file's value) for every field left unset, for every combination of fields; only the KCP stream mode is always the user's. A configuration file, at the default place or where the environment variable says, sets exactly the fields it names, a missing file leaves the defaults in force, and a malformed one is refused. The settings take effect: transports, ports, WebSocket path, KCP session options and logging are as configured.",
  ["configurations", "inputs"], "every single field and every pair of fields set or unset",
  "Tests never compare the merged configuration.",
  ["zconf/userconf.go", "zconf/zconf.go", "zconf/env.go", "znet/server.go"],
  [("UserConfToGlobal", "zconf/userconf.go"), ("Reload", "zconf/zconf.go")],
  ["zconf.GlobalObject"], "seq")
p("C22", "The notifier reaches exactly the connections bound to an id",
  "A notification to an id reaches the connection most recently bound to that id and no other, a broadcast reaches the connection of every bound id exactly once for each id, and an unbound or unknown id is reported as an error. Binding, unbinding and notifying may run concurrently without losing a binding or blocking forever.",
  ["schedules", "histories"], "all sequences of bind, unbind, notify and broadcast up to the depth, and all interleavings of two or three of them",
  "The test binds and notifies in one fixed order.",
  ["znotify/notify.go", "ziface/inotify.go"],
  [("ShardLockMaps of id to connection", "znotify/notify.go")],
  ["messages received by the connections"], "both")
p("C23", "Connection properties and close callbacks behave like a map and a list",
  "Properties set on a connection are read back exactly, removed exactly, and never leak to another connection, under any concurrent use. Close callbacks run in registration order, once each, and removing one (by handler and key) removes exactly it, for any sequence of registrations and removals.",
  ["schedules", "histories"], "all sequences up to the depth, all interleavings of two users",
  "Tests cover two fixed sequences of callbacks and no property races.",
  ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/callbacks.go"],
  [("property map and its lock", "znet/*connection.go"), ("callbacks linked list", "znet/callbacks.go")],
  ["property values, callback invocations"], "both")
p("C24", "A client connects, reports failures and stops cleanly at any moment",
  "A started client dials its configured address or URL and either establishes one working connection or reports the failure to its error channel, and after stop returns no connection, goroutine or heartbeat of it survives and its error channel is closed, whether it is stopped before, while or after connecting, connecting failed, or the server went away; stop never blocks forever or crashes. After a stop or a failure it can be restarted and works as new.",
  ["schedules", "fault_sequences"], "all interleavings of start, dial outcome, server hang-up, stop and restart within the bound, TCP and WebSocket",
  "Tests run one client against one live server.",
  ["znet/client.go", "znet/connection.go", "znet/ws_connection.go"],
  [("Client.Restart/Start/Stop, exitChan, ErrChan", "znet/client.go")],
  ["client connection state, goroutines, errors"], "sched")
p("C25", "Grid neighbourhoods partition the map and are symmetric",
  "In the area-of-interest manager every position of the map, its border included, belongs to exactly one cell and is found in it, the neighbourhood of a cell is exactly the cells that touch it, and neighbourhood is symmetric. Players added, moved and removed, one after another or concurrently, are found exactly in the neighbourhoods of their positions, and after each step every client has been told of exactly the players around its own. Every client's player has an id of its own.",
  ["inputs", "configurations", "histories"], "all grid shapes up to the bound and all positions in them, all histories of joins, moves, leaves and talk up to the depth, all interleavings of two players' steps",
  "The tests print neighbourhoods of one 5x5 grid.",
  ["zinx_app_demo/mmo_game/core/aoi.go", "zinx_app_demo/mmo_game/core/grid.go", "zinx_app_demo/mmo_game/core/player.go", "zinx_app_demo/mmo_game/core/world_manager.go"],
  [("GetSurroundGrIDsByGID, GetGIDByPos", "zinx_app_demo/mmo_game/core/aoi.go"), ("UpdatePos, OnExchangeAoiGrID, LostConnection", "zinx_app_demo/mmo_game/core/player.go")],
  ["returned grids and player ids"], "both")

p("C26", "The server keeps admitting clients, and only those it should",
  "A client that arrives while the server runs and has room under its connection limit is admitted and served, waiting at most about a second for each failure before it, whatever accept errors, broken or refused WebSocket handshakes, over-limit arrivals and departures came before or happen at the same time. A WebSocket client whose request the authentication function rejects never becomes a connection and is answered 401; one it accepts does, its connection's context carries that request's context, and the subprotocol agreed is one that this client offered.",
  ["histories", "schedules", "faults"], "all histories of arrivals, departures, accept errors and failing handshakes up to the depth; all interleavings of two or three concurrent handshakes up to the deviation bound",
  "No test makes accept fail, rejects a handshake or runs two handshakes at once.",
  ["znet/server.go", "znet/acceptdelay.go", "znet/ws_connection.go"],
  [("ListenTcpConn, ListenWebsocketConn, ListenKcpConn, admit", "znet/server.go")],
  ["what a client sees: upgraded, status, subprotocol, answers", "the registry", "the connection's context"], "both")

NA = {}
