#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run from /verif: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

CONN = "yamux/src/connection.rs"
STR = "yamux/src/connection/stream.rs"
FC = "yamux/src/connection/stream/flow_control.rs"
IO = "yamux/src/frame/io.rs"
HDR = "yamux/src/frame/header.rs"
FRM = "yamux/src/frame.rs"
CH = "yamux/src/chunks.rs"
CLOSING = "yamux/src/connection/closing.rs"
CLEAN = "yamux/src/connection/cleanup.rs"
RTT = "yamux/src/connection/rtt.rs"
LIB = "yamux/src/lib.rs"
TAG = "yamux/src/tagged_stream.rs"

prop("C01", "Stream bytes arrive intact, in order, on the right stream",
 """The bytes an application reads from a stream are always exactly a prefix of the bytes that the peer's writes on that same
 stream reported as accepted: nothing lost, duplicated, reordered, altered or delivered to another stream. This holds for both
 read interfaces (byte reads and packets, also mixed), every accepted configuration, both directions at once, any number of streams,
 and every way the transport fragments, buffers or delays bytes.""",
 ["inputs", "histories", "schedules", "configurations"],
 "every history of opens, writes, reads, closes and drops on several streams; every poll order; every transport capacity and fragmentation; every configuration",
 """The existing echo tests use uniform or small random messages on loopback TCP with one task per stream and mostly default
 configurations, so mis-ordered, duplicated or cross-delivered chunks, partial-chunk reads and unusual frame sizes are sampled in a handful of points.""",
 [CH, STR, CONN, IO], [("chunk queue with cursor", CH), ("poll_read/poll_next/poll_write", STR), ("on_data routing by stream id", CONN), ("frame reader/writer state machines", IO)],
 [("buffer", "received, not yet read chunks of a stream", STR)], ["Stream::poll_read", "Stream::poll_next", "Stream::poll_write"])

prop("C02", "End of stream comes after all data, and does come",
 """While the connection lives, a reader sees end-of-stream only after it has read every byte the peer's writes accepted before the
 peer closed or dropped its end, and never while the peer's end is still open for writing. Once the peer has closed or dropped its end,
 a reader that keeps reading does reach end-of-stream.""",
 ["histories", "schedules", "inputs"],
 "every history of writes, closes and drops, every poll order and transport behaviour, for data still queued, in flight or buffered when the close happens",
 """Tests check one close per stream after a complete exchange; the races between queued data, window updates, FIN, RST and the drop of a stream are schedule dependent.""",
 [STR, CONN, CLOSING], [("per-stream command queue drained before the drop is seen", CONN), ("FIN/RST state transitions", STR), ("reader woken on FIN", CONN)],
 [("State", "open/half-closed/closed state of a stream", STR)], ["Stream::poll_read returning 0", "Stream::poll_next returning None"])

prop("C03", "Half-close leaves the other direction usable",
 """Closing a stream's write half makes later local writes on it fail but leaves the local end able to read everything the peer goes on to send,
 including replenishing the peer's credit, until the peer closes as well. The stream's status queries agree with what happened: write-closed once only the local
 end has closed, closed once both ends have closed or the stream was reset, neither before. Closing again succeeds and puts nothing further on the wire.""",
 ["histories", "inputs", "schedules"],
 "every order of local close, remote FIN/RST, reads, writes and repeated closes, with any amount of data still to come",
 """prop_send_recv_half_closed runs 7 request/response exchanges in one order, with a response no larger than the request.""",
 [STR, CONN], [("poll_close and state machine update_state", STR), ("on_data/on_window_update FIN handling", CONN)],
 [("State", "SendClosed/RecvClosed/Closed", STR)], ["Stream::is_write_closed", "Stream::is_closed", "Stream::poll_write after close"])

prop("C04", "Dropping a stream is reported to the peer and disturbs no other stream",
 """When an application drops a stream the peer learns of it: after the data accepted before the drop, the peer's reads end, and if the dropped end
 had not closed its write half first, the peer's waiting and later writes fail instead of hanging. Closing, dropping or resetting one stream never changes what
 any other stream of the connection delivers, accepts or reports.""",
 ["histories", "schedules"],
 "every point of a stream's life at which it can be dropped or reset, with other streams active",
 """One test drops one stream after a one-byte write; drops in the half-closed states, with queued frames, blocked peers or sibling streams are not exercised.""",
 [CONN, STR], [("on_drop_stream", CONN), ("RST handling in on_data/on_window_update", CONN)],
 [("streams / stream_receivers", "live streams and their command queues", CONN)], ["peer stream reads/writes", "wire frames"])

prop("C05", "A sender never exceeds the credit its peer granted",
 """On every stream the payload accepted for sending, and hence put on the wire, never exceeds the initial 256 KiB (plus any credit in the peer's opening frame) plus
 the credit of the window updates received so far. A write without credit waits, a write with credit proceeds and is woken when credit arrives, and each update raises the allowance by exactly its amount.
 An update that would push the allowance beyond its representable range is refused as a protocol error and changes nothing.""",
 ["histories", "inputs", "schedules"],
 "every sequence of writes and window updates (including zero, huge and overflowing credit), at every point of a stream's life",
 """No existing test drives the sender against a peer that withholds or hands out odd amounts of credit; the echo tests always replenish promptly.""",
 [STR, FC, CONN], [("send window checked arithmetic", FC), ("poll_write clamp to window", STR), ("on_window_update", CONN)],
 [("send_window", "remaining credit", FC)], ["Stream::poll_write", "data frames on the wire"])

prop("C06", "Data beyond the granted window is refused",
 """If a peer sends more payload on a stream than the credit granted to it so far, including in the opening frame, the surplus frame is neither delivered nor buffered and the peer
 is told with a protocol-error GoAway. Payload within the granted credit is always accepted, in particular up to the last byte of the window.""",
 ["inputs", "histories"],
 "every split of the window over data frames, every mix with reads and granted credit, every overshoot",
 """Needs a misbehaving peer at the exact window boundary; the tests only connect this implementation to itself (GHSA-vxx9-2994-q338 was such a case).""",
 [CONN, FC], [("consume_receive_window", FC), ("on_data size checks", CONN)],
 [("receive_window", "credit the remote still holds", FC)], ["GoAway on the wire", "Stream reads"])

prop("C07", "Granted receive windows stay within the configured bounds",
 """At every moment the credit granted to the peer but not yet consumed by the application, summed over all live streams of a connection, stays within the configured maximum
 connection receive window, while every stream keeps at least its default 256 KiB window. Window growth given to streams that have since been dropped is returned and becomes available to other streams.""",
 ["histories", "configurations", "schedules"],
 "every configuration with a limit, any number of streams growing, stalling and being dropped in any order",
 """The flow-control unit test calls one function once on random states; accumulation across streams, growth and drops over a history is never observed.""",
 [FC, LIB], [("accumulated_max_stream_windows accounting incl. drop", FC), ("connection limit computation", FC)],
 [("accumulated_max_stream_windows", "growth beyond 256 KiB handed out on this connection", CONN)], ["window updates on the wire"])

prop("C08", "Credit is returned as data is read; windows grow only when justified",
 """When at least half of a stream's window has been received and read by the application, the next read poll returns credit that restores the full window, and no credit is sent earlier, so a sender whose data is being read never
 stays out of credit. The window at most doubles per update, never shrinks, is capped by the connection limit, and grows exactly when a round-trip time has been measured and the previous update was less than two round-trips ago.""",
 ["histories", "inputs", "configurations", "schedules"],
 "every pattern of arriving data, reads, elapsed time, measured round-trip times and configured limits",
 """Time-dependent: loopback tests never see a chosen round-trip time, and the unit test only checks that one call does not panic.""",
 [FC, STR, RTT], [("next_window_update", FC), ("send_window_update on read", STR)],
 [("receive_window/max_receive_window", "credit bookkeeping", FC), ("last_window_update", "time of last update", FC)], ["window updates on the wire"])

prop("C09", "Pending operations are woken; connected endpoints never deadlock",
 """With every task polled only when its waker fires, each pending stream or connection operation completes once what it waits for has happened (data, end of stream, credit, queue room, transport room, acknowledgement, end of connection), whichever tasks read, write, open and drive.
 Two connected endpoints whose applications keep reading and driving always deliver everything written, for every transport capacity, fragmentation and flush behaviour.""",
 ["schedules", "histories", "configurations"],
 "every poll order under strict wake-ups, separate tasks for reader, writer, opener and driver, any transport capacity down to one byte",
 """Executors in the tests poll spuriously, share one task between reader, writer and driver, and run over large socket buffers, which masks lost wake-ups and cyclic waits.""",
 [CONN, STR, IO, TAG], [("wakers in shared stream state", STR), ("no_streams_waker/new_outbound_stream_waker", CONN), ("poll loop registration order", CONN)],
 [("reader/writer wakers", "tasks waiting on the stream", STR)], ["task wake-ups", "completion of pending operations"])

prop("C10", "Streams used from other threads never race with the connection",
 """When streams are read, written, closed and dropped on threads other than the one driving the connection, every interleaving behaves like some sequential one: no panic, no deadlock, no lost wake-up and no lost,
 duplicated or misplaced byte.""",
 ["schedules"],
 "every preemption at a lock operation between the driver threads of both endpoints and the stream threads",
 """Real-thread tests hit only the interleavings the OS happens to produce, mostly with everything on one task.""",
 [STR, CONN, RTT, FC], [("shared state behind one mutex per stream", STR), ("check-and-register under one lock", STR)],
 [("Shared", "state shared by stream and connection", STR)], ["completion and content of stream operations"])

prop("C11", "Back-pressure bounds what is buffered",
 """While the transport accepts no bytes, a stream's writes are accepted only up to a small fixed number of frames and then wait; while an application does not read, no more than the granted window is held for it.
 A peer that floods pings without reading makes the endpoint stop reading after a bounded number of unsent replies instead of queueing without limit.""",
 ["histories", "inputs", "schedules"],
 "any number of streams and any amount written, pinged or sent while the transport or reader is stalled",
 """No test stalls the transport or floods an endpoint, so unbounded queues would pass unnoticed.""",
 [STR, CONN], [("bounded per-stream command channel", CONN), ("single pending write frame, bounded pending replies", CONN)],
 [("pending_read_frame/pending_write_frame", "replies and stream frames waiting for the socket", CONN)], ["bytes accepted minus bytes on the wire", "bytes read from the transport while stalled"])

prop("C12", "Ids of locally opened streams are fresh, ordered and of the right parity",
 """Streams opened by one endpoint get strictly increasing, never reused, non-zero ids, odd on a client and even on a server, independent of inbound streams and of streams closed meanwhile.
 When the id space is used up, opening fails with the dedicated error instead of wrapping around, repeating an id or panicking.""",
 ["histories"],
 "every interleaving of outbound opens, inbound streams and drops, including the end of the 32-bit id space",
 """Exhaustion needs about 2^31 opens, which no test can perform.""",
 [CONN, HDR], [("next_stream_id", CONN)], [("next_id", "next outbound id", CONN)], ["Stream::id", "SYN frames on the wire"],
 "cfg(yamux_verif): set the next outbound stream id, to reach the end of the id space")

prop("C13", "Inbound streams are admitted exactly when their opening frame is valid",
 """A peer's opening frame yields exactly one inbound stream, handed out once and in arrival order with the data, end-of-stream and extra credit the frame carries, if and only if its id has the peer's parity, is not the session id and is not in use.
 Any other opening frame yields no stream, changes no existing stream and is answered with a protocol-error GoAway.""",
 ["inputs", "histories"],
 "every opening frame (data or window update, any flags, id, length) in every connection state, on clients and servers",
 """Tests only connect two well-behaved endpoints, and mostly open from the client.""",
 [CONN, HDR], [("is_valid_remote_id and duplicate check", CONN), ("on_data/on_window_update SYN branch", CONN)], [("streams", "live streams by id", CONN)], ["Connection::poll_next_inbound", "GoAway on the wire"])

prop("C14", "The stream limit is enforced without collateral damage",
 """A connection never has more live streams than configured: a local open beyond the limit fails with the too-many-streams error and leaves the connection and its streams working, and an inbound open beyond it yields no stream and is answered with an error GoAway.
 A dropped stream frees its slot.""",
 ["histories", "configurations"],
 "every limit, every mix of inbound and outbound streams, closes and drops around the limit",
 """prop_max_streams only opens n+1 outbound streams and stops at the error.""",
 [CONN], [("max_num_streams checks", CONN), ("on_drop_stream removal", CONN)], [("streams", "live streams", CONN)], ["Connection::poll_new_outbound", "Connection::poll_next_inbound"])

prop("C15", "Unacknowledged opens are limited to 256 and released promptly",
 """An endpoint never has more than 256 open locally opened streams that the peer has not yet acknowledged: the next open waits, and is woken and succeeds as soon as one of them is acknowledged or reset, or its close or drop has been taken over by the connection for sending. An accepted stream is acknowledged by the first frame its acceptor sends on it, by whatever operation,
 and both ends' pending-acknowledgement query flips exactly then.""",
 ["histories", "schedules"],
 "every order of opens, acknowledgements, closes, resets and drops around the limit, for every kind of first frame",
 """One test releases one backlog through an acknowledgement by data frame, with an executor that re-polls the opener anyway.""",
 [CONN, STR], [("ack_backlog/new_outbound_stream_waker", CONN), ("ACK flag handling", STR)], [("acknowledged", "ack state of a stream", STR)], ["Connection::poll_new_outbound", "Stream::is_pending_ack"])

prop("C16", "Stream life-cycle flags on the wire follow the protocol",
 """For every stream, exactly the opener's first frame carries SYN and exactly the acceptor's first frame carries ACK (a reset, or the FIN that reports a drop, may stand in for it). Each side sends at most one FIN and no payload after it, nothing after RST,
 and no frame for a stream that was neither opened by it nor by the peer.""",
 ["histories", "schedules"],
 "every history and schedule of stream operations on both endpoints",
 """Tests never look at the wire; an interoperability bug with other yamux implementations stays invisible when both ends share it.""",
 [STR, CONN, FRM], [("add_flag/Flag", STR), ("close_stream/on_drop_stream frames", CONN)], [("flag", "SYN/ACK still to be sent", STR)], ["frames on the wire"])

prop("C17", "Everything sent is a well-formed sequence of frames",
 """Whatever the pattern of partial, delayed, refused or buffered transport writes, the bytes sent form complete, valid yamux frames: version 0, a known type, flags allowed for it, session id zero for pings and GoAways, a body of exactly the announced length, and data bodies no longer than the configured split size or the largest body an endpoint of this implementation accepts.
 Only a transport failure may leave the last frame incomplete.""",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "every fragmentation of writes at every offset, every split size, every interleaving of frame sources",
 """Tests write to sockets that take whole frames; the codec unit test uses an in-memory cursor that accepts everything.""",
 [IO, HDR, FRM, STR], [("WriteState machine", IO), ("encode", HDR), ("split_send_size", STR)], [("write_state", "partially written frame", IO)], ["bytes on the wire"])

prop("C18", "Arbitrary peer input is handled without panic, whatever its fragmentation",
 """For every byte sequence received, in every fragmentation, the endpoint neither panics nor loops nor allocates more than a bounded amount per frame, and its observable behaviour does not depend on the fragmentation.
 An unknown version, unknown type, over-long body or truncated frame ends the connection with the corresponding error; the end of input on a frame boundary ends it without one.""",
 ["inputs", "fault_sequences", "histories"],
 "every input byte string and every fragmentation, against endpoints in every state",
 """The codec test round-trips well-formed frames in one piece; malformed, truncated or adversarial input is not tested at all.""",
 [IO, HDR, CONN], [("ReadState machine", IO), ("decode", HDR), ("MAX_FRAME_BODY_LEN", IO)], [("read_state", "partially read frame", IO)], ["Connection::poll_next_inbound", "absence of panics", "allocation sizes"])

prop("C19", "Pings are answered faithfully and round-trip probes are disciplined",
 """Every ping from the peer is answered with exactly one acknowledgement carrying the same value, in order; acknowledgements are never answered. The endpoint's own probes have at most one outstanding and follow an answered one by no less than ten seconds;
 once longer than that has passed, the next poll of the connection that can write sends one. An acknowledgement that matches no outstanding probe is refused with a protocol-error GoAway.""",
 ["inputs", "histories", "schedules"],
 "every sequence of pings, pongs and other traffic, any timing",
 """Nothing in the tests sends or inspects pings, and the ten-second interval exceeds their run time.""",
 [RTT, CONN], [("next_ping/handle_pong", RTT), ("on_ping and pending reply slot", CONN)], [("RttState", "outstanding probe", RTT)], ["ping frames on the wire"])

prop("C20", "Closing a connection loses nothing that was accepted before it",
 """Closing a connection puts everything its streams had accepted before (data and closes) on the wire, then one normal GoAway, then closes the transport and writes nothing more; it completes whenever the peer keeps reading or is closing too.
 Afterwards opening fails as closed, inbound polling reports the end, closing again succeeds, and local streams are ended: waiting tasks are woken, received data stays readable (unless configured otherwise), writes fail.""",
 ["histories", "schedules", "configurations"],
 "every state of the connection and its streams at the moment of closing, every transport capacity and fragmentation, both ends closing at once",
 """The unit test drives the closing future alone with three canned commands and a socket that never blocks.""",
 [CLOSING, CONN, STR], [("Closing state machine", CLOSING), ("Active::close", CONN)], [("pending_frames", "frames left to flush", CLOSING)], ["wire frames", "peer stream reads", "local stream operations"])

prop("C21", "A failing connection ends cleanly and leaves nobody waiting",
 """If the transport fails or ends at any point, or the peer breaks the framing or sends a GoAway, the connection reports the cause once (a clean end or GoAway as end of inbound streams), is closed from then on and never touches the transport again.
 Every stream operation, waiting or later, completes: reads return what was received and then end-of-stream (at once if reading after close is disabled), writes fail.""",
 ["fault_sequences", "histories", "schedules", "crash_points"],
 "every transport operation at which a failure, end of input, zero-length or over-reported write can strike, in every state",
 """No test injects a transport fault.""",
 [CLEAN, CONN, IO, STR], [("Cleanup/drop_all_streams", CONN), ("error propagation in poll", CONN)], [("ConnectionState", "active/closing/cleanup/closed", CONN)], ["Connection poll results", "stream operation results", "transport accesses"])

prop("C22", "Frames for unknown streams are ignored",
 """Data, window-update, FIN or RST frames, and stream-scoped pings, that name a stream which never existed or has been dropped are ignored: they cause no reply, no new stream and no error, and neither the connection nor any live stream changes.""",
 ["inputs", "histories"],
 "every late or stray non-opening frame at every point after a stream has gone, or for an id never used",
 """Late frames depend on drops racing with frames in flight and are not produced deliberately by any test (issue 110).""",
 [CONN], [("unknown-stream branches of on_data/on_window_update/on_ping", CONN)], [("streams", "live streams", CONN)], ["frames on the wire", "connection results"])

prop("C23", "Configuration limits are validated for all values",
 """A configuration setter rejects a value exactly when the connection receive window would be smaller than 256 KiB per allowed stream, for every value and order of calls including extremes and no limit; an accepted configuration never makes a connection panic or exceed it.""",
 ["configurations", "inputs"],
 "every pair of limits over the whole integer range and every order of setter calls",
 """Tests use a few moderate values; extremes where the product overflows are never tried.""",
 [LIB, FC], [("setter assertions", LIB), ("limit arithmetic", FC)], [("Config", "limits", LIB)], ["Config setters", "connections using them"])

prop("C24", "Finished streams leave nothing behind",
 """Once both the application and the protocol are done with a stream, the connection keeps no memory, slot or queue for it, so an endpoint can open, use and drop any number of streams over its life with resource use bounded by the number of live ones.""",
 ["histories", "schedules"],
 "every way a stream can end (closed by either side first, dropped, reset, never used), repeated any number of times",
 """Leaks show up as growth over many cycles, which no test measures (a release fixed streams being kept until the connection was dropped).""",
 [CONN, STR, TAG], [("on_drop_stream", CONN), ("TaggedStream termination", TAG)], [("streams/stream_receivers", "per-stream bookkeeping", CONN)], ["live heap bytes", "stream limit"])

prop("C25", "No stream, reply or direction is starved",
 """Whatever else the connection has to do, everybody gets a turn: between two frames of a stream that has frames queued only a bounded number of frames of other streams is sent, replies to the peer's pings and a due round-trip probe go out ahead of queued stream data (after a small fixed number of frames at most), and a flood of inbound frames keeps neither accepted frames from being sent nor sent bytes from being flushed while the transport takes them.""",
 ["schedules", "inputs"],
 "every number of streams kept full, every size of transport writes, every burst of inbound frames",
 """Starvation needs several streams kept full over a transport slower than all of them, or a long burst of input; tests write everything over a fast transport and only look at the total.""",
 [CONN], [("Active::poll order of service", CONN), ("SelectAll of stream receivers", CONN)], [("stream_receivers/pending_read_frames", "queued frames and replies", CONN)], ["frames on the wire"])

root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(root, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
