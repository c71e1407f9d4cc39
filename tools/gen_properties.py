#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the long text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"),s)) for s in (state or [])],
                  "mechanism": [dict(zip(("name","where"),m)) for m in mech],
                  "observe_at": observe, "hook_needed": hook}})

prop("C01", "ReliableOrdered: exactly once, in order, intact",
 "Every message accepted by send() with Reliability::ReliableOrdered on a connection that stays open is returned by the peer's recv() exactly once, byte-for-byte intact, and in the order it was sent, whatever its size. This holds for every pattern of datagram loss, duplication, delay and reordering in either direction, and once the network stops losing datagrams every outstanding message is delivered within a bounded time.",
 ["inputs","fault_sequences","schedules","histories"],
 "all message sequences and sizes (one byte to many fragments), all loss/duplication/reordering patterns in both directions, all arrival orders of frames and fragments, all task schedules",
 "The tests send ten identical-shape messages under one unseeded random loss setting and four hand-made frames; they never duplicate or reorder datagrams, never interleave compounds and never mix reliabilities.",
 ["src/arq.rs","src/fragment.rs","src/socket.rs"],
 [("ordered buffer keyed by ordered index, contiguous drain","arq.rs RecvQ::insert/flush"),("retransmission queue","arq.rs SendQ::flush/tick/ack/nack"),("fragment reassembly","fragment.rs FragmentQ/Fragment")],
 ["RaknetSocket::send / RaknetSocket::recv at both ends","every UDP datagram crossing a fault-injecting proxy"],
 [("last_ordered_index","next ordered index to deliver","arq.rs RecvQ"),("sent_packet","unacknowledged reliable frames","arq.rs SendQ")])

prop("C02", "Reliable: delivered exactly once, intact",
 "Every message accepted by send() with Reliability::Reliable on a connection that stays open is returned by the peer's recv() exactly once and byte-for-byte intact, in any order. This holds for every pattern of loss, duplication, delay and reordering of data and acknowledgement datagrams.",
 ["inputs","fault_sequences","schedules","histories"],
 "all message sequences, all loss/duplication/reordering patterns of data and ACK datagrams, in both directions",
 "The only end-to-end test of Reliable sends one message over a perfect loopback; a lost acknowledgement (the case that turns at-least-once into twice) never happens.",
 ["src/arq.rs","src/socket.rs"],
 [("retransmission queue keyed by reliable frame","arq.rs SendQ"),("delivery of Reliable frames","arq.rs RecvQ::insert"),("per-connection filter of repeated reliable frames","socket.rs start_receiver")],
 ["RaknetSocket::send / recv","raw peer that repeats or re-numbers datagrams"])

prop("C03", "Sequenced: only newer messages, latest reliable one arrives",
 "The messages sent with Reliability::UnreliableSequenced or ReliableSequenced that recv() returns are intact, are never repeated, and each is newer than every sequenced message returned before it on that connection. A ReliableSequenced message is missing only if a newer sequenced message was delivered, so the last one sent always arrives once the network stops losing datagrams.",
 ["inputs","fault_sequences","schedules","histories"],
 "all sequences of sequenced sends, all arrival orders, losses and duplications",
 "One test checks a weak non-decreasing condition over random loss and accepts repeated messages; no test delivers an older frame after a newer one, or checks that the last message arrives.",
 ["src/arq.rs","src/socket.rs"],
 [("sequenced index filter","arq.rs RecvQ::insert"),("sequenced index assignment","arq.rs SendQ::insert")],
 ["RaknetSocket::recv","raw peer choosing arrival order"],
 [("sequenced_frame_index","lowest sequenced index still acceptable / next to assign","arq.rs RecvQ, SendQ")])

prop("C04", "No message is invented, altered or multiplied",
 "For every reliability, each buffer returned by recv() is byte-for-byte one that the peer application passed to a successful send() on this connection; an Unreliable message is returned at most once per datagram copy the network delivered. On a network that loses nothing, every Unreliable message is returned.",
 ["inputs","fault_sequences","histories"],
 "all message contents and lengths from 1 byte to the per-datagram limit, mixed reliabilities, all loss/duplication/reordering patterns",
 "Tests compare a handful of constant-filled buffers; contents depending on position, lengths at the limits and mixed reliabilities under faults are never checked.",
 ["src/arq.rs","src/datatype.rs","src/socket.rs"],
 [("frame serialisation with bit length","arq.rs FrameSetPacket::serialize"),("frame parsing","arq.rs FrameVec::new"),("hand-over to the application channel","socket.rs RaknetSocket::handle")],
 ["RaknetSocket::send / recv","proxy datagram log"])

prop("C05", "Datagrams fit the MTU; oversize sends are refused cleanly",
 "No datagram an endpoint sends on a connection, whether it carries messages or acknowledgements, is larger than the negotiated MTU minus the 28 bytes of IP/UDP overhead, whatever MTU between the protocol's limits the peer asked for, and an absurd MTU request never breaks the connection or panics. A non-ordered message longer than MTU-60 bytes is refused with PacketSizeExceedMTU and leaves no trace on the wire; every message of at most that size, and every ReliableOrdered message of any size, is accepted and delivered whole.",
 ["inputs","configurations"],
 "all message lengths around every boundary, all 65536 MTU values a peer can put in its request, all reliabilities",
 "Tests use only the default MTU and three sizes (3, 1000, 3000 bytes); no refused send is ever tried and the peer's MTU request is never anything but 1400.",
 ["src/arq.rs","src/server.rs","src/socket.rs","src/packet.rs"],
 [("size checks and splitting","arq.rs SendQ::insert"),("MTU taken from OpenConnectionRequest2","server.rs listen"),("MTU taken from OpenConnectionReply1","socket.rs connect_with_version")],
 ["RaknetSocket::send result","size of every UDP datagram at a raw peer"])

prop("C06", "flush() returns Ok only when everything is acknowledged",
 "flush() returns Ok only after the peer has acknowledged every reliable message sent before the call, so after Ok the peer application receives all of them even if the sender is closed or dropped at once. It returns Ok within a bounded time once the acknowledgements arrive, and returns ConnectionClosed, rather than hanging, when the connection closes first.",
 ["schedules","fault_sequences","histories"],
 "all acknowledgement orders, delays and losses, any one frame left unacknowledged, close at any moment",
 "The flush test only runs over a perfect loopback where the ACK is already there; no test withholds one acknowledgement or closes during flush.",
 ["src/socket.rs","src/arq.rs"],
 [("flush polling loop","socket.rs RaknetSocket::flush"),("emptiness of the send queue","arq.rs SendQ::is_empty"),("removal on ACK","arq.rs SendQ::ack")],
 ["RaknetSocket::flush result","ACK datagrams sent by a raw peer"])

prop("C07", "Acknowledgements are sound and complete",
 "An endpoint acknowledges a datagram sequence number only if it has received that datagram, and acknowledges every well-formed data datagram it receives, including repeats of one already acknowledged. A gap in the sequence numbers it receives is reported (NACK) promptly, and it asks only for sequence numbers below the highest it has received.",
 ["inputs","fault_sequences","histories"],
 "all orders, gaps, repetitions and batches of incoming sequence numbers",
 "The acknowledgement-set test feeds three hand-written orders straight into the data structure; nothing relates the ACK/NACK datagrams actually sent to the datagrams actually received.",
 ["src/arq.rs","src/socket.rs","src/packet.rs"],
 [("range set of received numbers","arq.rs ACKSet"),("ACK emission after each datagram","socket.rs start_receiver"),("NACK emission on the tick","socket.rs start_tick"),("ACK/NACK encoding","packet.rs write_packet_ack/write_packet_nack")],
 ["ACK and NACK datagrams at a raw peer / proxy"])

prop("C08", "Unacknowledged frames are resent until acknowledged, then never",
 "A reliable frame that is not acknowledged is sent again and again, unchanged apart from its datagram sequence number, at intervals that never exceed about 12 seconds and are no shorter than the 50 ms minimum unless the peer asked for it. A frame the peer reports missing is resent promptly without waiting for the backed-off timer. Acknowledging any one of the sequence numbers a frame was sent under ends its retransmission, and unreliable frames are never resent.",
 ["fault_sequences","histories","schedules"],
 "all patterns of withheld, late, partial, repeated and out-of-order ACKs and NACKs, and outages up to the receive timeout",
 "The send-queue test acknowledges both frames immediately; retransmission timing, re-numbering, stale acknowledgements and NACK handling are never observed.",
 ["src/arq.rs","src/socket.rs"],
 [("RTO estimate and tick","arq.rs SendQ::update_rto/tick"),("ack by any past sequence number","arq.rs SendQ::ack"),("nack handling","arq.rs SendQ::nack"),("50 ms ticker","socket.rs start_tick")],
 ["datagrams arriving at a raw peer that controls ACK/NACK"],
 [("sent_packet","frame, in-flight flag, last send time, resend count, all its sequence numbers","arq.rs SendQ")])

prop("C09", "connect() succeeds despite any lost or repeated handshake datagram",
 "If the server is listening and the network eventually delivers datagrams, connect() returns a usable connection and the server's accept() returns exactly one matching connection, whichever handshake datagrams were lost, duplicated or delayed; peer_addr()/local_addr() at both ends name the right endpoints. If the server refuses the connection, or the connection dies after the server opened it, connect() returns an error instead of waiting for ever.",
 ["fault_sequences","schedules"],
 "loss, duplication or delay of each single handshake datagram and of pairs and prefixes of them; concurrent connects; all schedules",
 "Every test connects over a loopback that loses nothing during the handshake.",
 ["src/socket.rs","src/server.rs","src/packet.rs"],
 [("request/reply retry loops","socket.rs connect_with_version"),("session creation","server.rs listen"),("handshake frames","socket.rs RaknetSocket::handle")],
 ["RaknetSocket::connect result","RaknetListener::accept results","proxy datagram log"])

prop("C10", "Protocol version negotiation",
 "connect_with_version(v) succeeds exactly for the versions the server supports (10 and 11) and otherwise returns NotSupportVersion without the server accepting anything. On an accepted connection raknet_version(), and get_peer_raknet_version() for that peer, report the version that client asked for, even with many clients of different versions at once.",
 ["configurations","inputs","schedules"],
 "all 256 version bytes, many clients with mixed versions concurrently, with and without handshake loss",
 "No test passes any version but the default, and none reads the version back.",
 ["src/server.rs","src/socket.rs","src/utils.rs","src/packet.rs"],
 [("supported list check","server.rs listen"),("per-address version map","server.rs version_map"),("IncompatibleProtocolVersion handling","socket.rs connect_with_version")],
 ["connect_with_version result","raknet_version()","get_peer_raknet_version()"])

prop("C11", "No datagram from a stranger can stop the server",
 "Whatever bytes arrive at a listening server's port from addresses without a session, or as unconnected/handshake messages from any address, no task of the library panics and the server goes on answering pings, accepting new connections and serving existing ones.",
 ["inputs","histories"],
 "all datagrams (empty, truncated at any byte, every packet id, mutated, random), all MTU/address fields, interleaved with live sessions",
 "No test sends a malformed or unexpected datagram.",
 ["src/server.rs","src/packet.rs","src/datatype.rs"],
 [("listen loop dispatch","server.rs listen"),("offline message parsers","packet.rs read_packet_*"),("bounds-checked reader","datatype.rs RaknetReader")],
 ["process-wide panic monitor","ping, connect and echo probes after each batch"])

prop("C12", "Malformed traffic in a session is contained",
 "Whatever bytes the peer of an established connection sends, on the server or the client side, no task of the library panics or spins, other connections are unaffected, and unless the bytes were a disconnect the connection itself still delivers later valid messages. Malformed datagrams and frames are ignored.",
 ["inputs","histories"],
 "all malformed framesets, ACKs, NACKs, fragments headers, inner packets and random bytes, at any point of a session, against server-side and client-side sockets",
 "The parsing tests feed only captured well-formed Minecraft packets.",
 ["src/socket.rs","src/arq.rs","src/fragment.rs","src/packet.rs","src/datatype.rs"],
 [("receive loop","socket.rs start_receiver"),("frame parser","arq.rs FrameVec::new"),("ACK/NACK parsers","packet.rs"),("reassembly","fragment.rs Fragment::merge")],
 ["process-wide panic monitor","delivery of a valid probe message after each malformed datagram"])

prop("C13", "Connections do not leak into each other",
 "A buffer returned by recv() on a connection was sent by that connection's own peer: with any number of concurrent connections on one listener no message, acknowledgement or disconnect of one connection affects another. Datagrams from any other source address, at server or client, have no effect on a connection.",
 ["schedules","inputs","histories"],
 "many concurrent connections in all schedules; injected datagrams of every kind (data, ACK, disconnect) from foreign addresses",
 "Every test has one client; no datagram ever comes from a third address.",
 ["src/server.rs","src/socket.rs"],
 [("session map keyed by source address","server.rs listen"),("client receive task","socket.rs connect_with_version")],
 ["recv() of every connection against per-connection tagged payloads","forged datagrams from other sockets"])

prop("C14", "One stalled connection or full backlog does not stall the server",
 "While an application leaves one accepted connection unread under any amount of incoming traffic, or leaves new connections unaccepted, the listener keeps answering pings and every other established connection keeps exchanging messages. Connections that could not be queued can be established once the application accepts again.",
 ["schedules","histories"],
 "any number of stalled connections and unaccepted connects, any amount of traffic towards them",
 "Every test reads everything and accepts its only client at once.",
 ["src/server.rs","src/socket.rs"],
 [("forwarding of datagrams to sessions under the session lock","server.rs listen"),("accept queue","server.rs connection_sender")],
 ["progress of other connections and of pings while one is stalled"])

prop("C15", "Closing a connection",
 "After close() returns, send() and flush() fail with ConnectionClosed, recv() still returns what had already arrived and then fails instead of hanging, and further close() calls succeed. The peer learns of the close promptly even if some datagrams are lost: its recv() first returns everything delivered before the close, then an error, and its send() and flush() fail with ConnectionClosed; a close racing with send(), recv() or flush() never panics or hangs.",
 ["schedules","fault_sequences","histories"],
 "close at every point relative to sends, receives and flushes of both ends, by either or both ends, under loss",
 "One test closes an idle socket and asserts inside a detached task whose failures are ignored.",
 ["src/socket.rs","src/server.rs"],
 [("close notifier","socket.rs close/start_tick/start_receiver/start_sender"),("Disconnect frame and datagrams","socket.rs close/start_tick"),("Disconnect forwarding","server.rs listen")],
 ["results of send/recv/flush/close at both ends","Disconnect datagrams at a raw peer"])

prop("C16", "Closing the listener",
 "RaknetListener::close() completes in bounded time in whatever state the listener is (never listened, idle, with accepted, unaccepted, busy or already closing connections, or after a close() that was abandoned halfway), disconnects every connection, and leaves the UDP port free to be bound again at once. Afterwards, and in any order of calls, accept() fails with NotListen and no listener method panics.",
 ["schedules","histories"],
 "all listener states and call orders, close racing with connects, traffic and connection closes",
 "One test closes a listener with one idle accepted connection.",
 ["src/server.rs","src/socket.rs"],
 [("close and socket release","server.rs close"),("session collector","server.rs start_session_collect")],
 ["close() completion","re-bind of the same port","clients' recv() errors"])

prop("C17", "Dropping handles releases everything",
 "Dropping a RaknetSocket closes the connection as close() does: the peer's recv() fails promptly. Dropping sockets and listeners, at any point including a cancelled connect(), ends every background task and frees every UDP socket within a bounded time, so repeated connect/drop cycles leak nothing.",
 ["schedules","histories"],
 "drop at every stage of a connection or listener life, cancelled connects, many cycles",
 "Tests drop sockets at process exit and never look at tasks or descriptors left behind.",
 ["src/socket.rs","src/server.rs"],
 [("drop watchers","socket.rs drop_watcher, server.rs drop_watcher"),("client receive task shutdown","socket.rs connect_with_version")],
 ["runtime alive-task count","open UDP sockets of the process","peer's recv() error"])

prop("C18", "Dead peers are detected, live ones are kept",
 "A connection whose peer has gone silent is closed after the 60 second receive timeout and not noticeably before or long after it: recv() then fails, and on the server its session is freed. A connection that keeps receiving any valid datagram within that time is never closed by the timeout, even if it sends nothing itself.",
 ["fault_sequences","schedules"],
 "peers that fall silent at any point of a connection's life, with and without unacknowledged data; peers that stay barely alive",
 "No test runs longer than a few seconds.",
 ["src/socket.rs","src/utils.rs","src/server.rs"],
 [("last heartbeat check","socket.rs start_tick"),("heartbeat update","socket.rs start_receiver")],
 ["recv() error time at silent-peer connections","liveness of sparse-traffic connections"])

prop("C19", "Unconnected ping: current MOTD and real latency",
 "While the listener runs, every well-formed unconnected ping is answered with a pong that echoes the ping's timestamp and carries the listener's current MOTD verbatim, including changes made by set_motd()/set_full_motd() after listen(); pinging never creates a connection. RaknetSocket::ping() returns that MOTD and a latency that is the time elapsed between its ping and the pong.",
 ["inputs","configurations","histories"],
 "all MOTD strings that fit a datagram, changes at any time, any network delay, concurrent pings",
 "The only ping test is commented out, and it let the fake server choose both timestamps.",
 ["src/server.rs","src/socket.rs","src/packet.rs"],
 [("pong construction","server.rs listen"),("MOTD storage","server.rs set_motd/set_full_motd/get_motd"),("latency computation","socket.rs ping")],
 ["pong datagrams at a raw socket","RaknetSocket::ping result with a delaying proxy"])

prop("C20", "Concurrent use of one connection is safe",
 "Any number of tasks may call send(), recv(), flush() and close() on one connection, and bind/connect/accept on others, at the same time on a multi-threaded runtime: no call panics or deadlocks, every reliable message of every task is received exactly once by exactly one receiving task, and ordered messages of each sending task keep their order. Abandoning a pending call (a timeout, select!) harms nothing else: an abandoned recv() loses no message, an abandoned accept() no connection, of an abandoned send() all arrives or nothing, and other calls go on as if it had not been made.",
 ["schedules"],
 "all interleavings of concurrent API calls, with delays injected between task polls",
 "Every test drives each socket from a single task, on a single-threaded runtime.",
 ["src/socket.rs","src/server.rs","src/arq.rs"],
 [("send queue lock","socket.rs send/start_tick/start_receiver"),("receiver lock","socket.rs recv"),("start-up handshake of drop watchers","socket.rs drop_watcher, server.rs drop_watcher")],
 ["per-task send and receive histories","panic monitor","runtime under injected scheduling delays"])

prop("C21", "Connections survive counter wrap-around",
 "A connection keeps all its delivery guarantees however many messages and datagrams it has carried: in particular past 65536 split messages and past 2^24 datagrams or messages, where protocol counters wrap to zero.",
 ["histories"],
 "histories longer than every protocol counter, including loss and duplication near the wrap",
 "The longest test sends 100 messages.",
 ["src/arq.rs","src/fragment.rs","src/datatype.rs","src/socket.rs"],
 [("16-bit compound id","arq.rs SendQ::insert"),("24-bit indexes","arq.rs SendQ/RecvQ, datatype.rs write_u24")],
 ["raw peer and library peer driven past each wrap"],
 [("compound_id","id of a split message","arq.rs SendQ"),("sequence_number","datagram number","arq.rs SendQ")],
 "first values of the counters of a connection (cfg rkv_hooks), so that the wrap comes within seconds")

prop("C22", "Wire compatibility",
 "Every datagram a library endpoint emits is valid RakNet as an independent decoder understands it, with field values consistent across the connection (message indexes gap-free and never reused for other content, fragments complete and consistent, handshake replies carrying magic, MTU, the peer's address and stable guid). It understands every valid RakNet peer: several frames in one datagram, any mix of reliabilities, any order, IPv4 and IPv6 peers alike.",
 ["inputs","histories","programs"],
 "all messages the endpoints emit in all workloads; all valid frame packings a RakNet peer may send; IPv4 and IPv6",
 "Tests only let the library talk to itself with one frame per datagram over IPv4; three captured packets are parsed in isolation.",
 ["src/arq.rs","src/packet.rs","src/datatype.rs","src/server.rs","src/socket.rs"],
 [("frame encoding/decoding","arq.rs FrameSetPacket/FrameVec"),("handshake encoding/decoding","packet.rs"),("address encoding","datatype.rs read_address/write_address")],
 ["datagrams decoded by an independent codec","raw peers over IPv4 and IPv6"])

prop("C23", "Reconnecting and repeated connection requests",
 "A connection request from an address that already has a live connection does not disturb that connection or create a second one: another client's request is answered AlreadyConnected. After a connection has ended, from either side and for whatever reason, a new connection from the same address can be established and is a fresh connection, unaffected by the end of the old one.",
 ["histories","schedules"],
 "all points of a connection's life at which a further request or a reconnect arrives, including immediately after a disconnect",
 "Every test uses a fresh ephemeral port once.",
 ["src/server.rs","src/socket.rs"],
 [("session lookup","server.rs listen OpenConnectionRequest2"),("session collector","server.rs start_session_collect"),("Disconnect handling","server.rs listen")],
 ["raw client reusing one address"])

prop("C24", "The proxy example relays both directions faithfully",
 "example/proxy forwards every message a client sends to the remote server, and back, intact, exactly once and in order, keeping concurrent clients apart. When either side of a relayed connection ends, what the proxy had acknowledged is still forwarded, the proxy ends the other side, and it keeps serving other clients, including when the remote refuses or goes away.",
 ["histories","schedules","fault_sequences"],
 "all message sequences in both directions, any number of clients, either end closing at any time",
 "The example has no tests at all.",
 ["example/proxy/src/main.rs","src/socket.rs","src/server.rs"],
 [("relay loop","example/proxy main"),("connection close on either side","example/proxy main")],
 ["messages at clients and at the remote server around the built proxy binary"])

prop("C25", "Setting the wall clock disturbs nothing",
 "Stepping the system's wall clock by any amount, forwards or backwards, at any moment, neither closes a live connection nor keeps a dead peer from being noticed about 60 s after its last datagram, neither stops, delays nor floods retransmission, and does not show in the latency ping() returns: every timer follows elapsed time.",
 ["histories","schedules"],
 "all steps of the wall clock, singly or in series, while frames, pings or nothing are in flight",
 "No test changes the clock; all of them finish within seconds of steady time.",
 ["src/utils.rs","src/arq.rs","src/socket.rs"],
 [("time source","utils.rs cur_timestamp_millis"),("retransmission timer","arq.rs SendQ::tick/flush/update_rto"),("receive timeout","socket.rs start_tick"),("latency computation","socket.rs ping")],
 ["a raw peer's record of retransmissions","recv() results","ping() result","end-to-end histories, all under a stepped CLOCK_REALTIME"])

prop("C26", "Simulated loss loses what was asked for, and only that",
 "set_loss_rate(stage) makes a connection lose a share of the datagrams it sends from then on, acknowledgements included, that falls evenly from about nine tenths at stage 0 to none at stage 10 (a fifth at stage 8) and can be changed at any time. Connections it was not called on lose nothing. Reliable messages still arrive exactly once, ordered ones in order, and a close is still noticed.",
 ["configurations","histories","fault_sequences"],
 "all stages in any succession, on either end or both, for every kind of datagram",
 "The tests that set a loss rate send a few messages at one stage and never count what was lost.",
 ["src/socket.rs"],
 [("loss decision","socket.rs sendto"),("loss settings","socket.rs set_loss_rate, send, start_tick, start_receiver")],
 ["datagrams and acknowledgements counted at a raw peer","end-to-end histories between two lossy ends"])

prop("C27", "Failing network calls are survived",
 "A system call on a UDP socket that fails costs at most the datagram it concerned. When sends fail, now and then or for seconds on end, at either side, connections stay open, everything reliable still arrives exactly once and in order, flush() and connect() succeed once sends work again, and ends are still noticed. When receiving fails at a listener it goes on serving everyone; when it fails at a client the connection goes on or ends at both sides, and connect() neither floods the network nor hangs. When no socket can be made connect(), ping() and bind() return an error. Nothing panics.",
 ["fault_sequences","histories"],
 "all errors of sendto, recvfrom and socket, of any frequency and duration, at any point of a connection",
 "No test makes a call of the network fail; on the loopback interface none ever does.",
 ["src/socket.rs","src/server.rs"],
 [("send path","socket.rs sendto"),("connection attempts","socket.rs connect_with_version, ping"),("listen worker","server.rs listen"),("client receive task","socket.rs connect_with_version")],
 ["errors injected into this process' sendto, recvfrom and socket, or reported by the kernel (IP_RECVERR)","end-to-end histories","results of connect, ping, bind, flush, close","datagrams counted at a raw peer"])

prop("C28", "Memory follows what is live, not what has passed",
 "However many messages, acknowledgements, pings, repeats and malformed datagrams a connection has carried, with or without loss, however many connections and connection attempts have come and gone and however many strangers have sent datagrams to a listener, the memory in use does not grow with that past. What waits for an application that does not read is bounded, and whatever a connection held (unsent, unacknowledged, out of order, unread) is freed soon after the connection ended and its handle was dropped.",
 ["histories"],
 "all histories of messages, connections and strangers, however long",
 "The tests end within seconds and never look at memory; growth of some bytes per event shows only after very many.",
 ["src/arq.rs","src/fragment.rs","src/socket.rs","src/server.rs"],
 [("send and receive queues","arq.rs SendQ, RecvQ, ACKSet, ReliableWindow"),("fragments","fragment.rs FragmentQ"),("unread messages","socket.rs MAX_UNREAD_MESSAGES"),("sessions and versions of a listener","server.rs listen, start_session_collect")],
 ["bytes of the heap in use, counted by the process' allocator, before and after histories of growing length"])

prop("C29", "Logging is opt-in and harmless",
 "Nothing is written to standard output or standard error unless enable_raknet_log() was called. Its flags choose the levels (1 debug, 2 error, 4 info, sums for several, 0 none) for every connection of the process from then on and can be changed at any time; each line carries the level it belongs to and only chosen levels appear. Whatever the level and whatever becomes of the output (full device, broken or closed pipe), connections, listeners and pings behave the same and nothing panics.",
 ["configurations","histories","fault_sequences"],
 "all flags in any succession, all traffic and errors there is something to say about, outputs that fail",
 "No test enables logging or looks at what is printed.",
 ["src/log.rs","src/socket.rs","src/server.rs","src/arq.rs"],
 [("levels","log.rs enable_raknet_log and the raknet_log_* macros"),("messages","socket.rs, server.rs, arq.rs")],
 ["standard output and error of a child process with real connections","the histories of its connections"])

prop("C30", "Only RakNet offline messages are answered",
 "A listener sends something to an address without a session only in answer to a well-formed unconnected ping, OpenConnectionRequest1 or OpenConnectionRequest2, magic included: at most one answer for each (and always one to a ping or an OpenConnectionRequest1), of the kind it asks for, naming the same server GUID every time. Anything else (a wrong magic, a cut message, another id) is not answered, makes no connection that accept() returns, and disturbs nobody. Likewise connect() does not go on after, and ping() does not return, an answer without the magic.",
 ["inputs","histories"],
 "all datagrams from addresses without a session, in any succession and from any number of addresses",
 "No test sends a malformed offline message or counts the answers.",
 ["src/server.rs","src/packet.rs","src/datatype.rs","src/socket.rs"],
 [("offline messages","server.rs listen"),("decoding","packet.rs read_packet_*, datatype.rs read_magic"),("answers a client takes","socket.rs connect_with_version, ping")],
 ["everything strangers' sockets receive","results of accept()","what a fake server receives, results of connect() and ping()"])

prop("C31", "A good guest on any Tokio runtime",
 "The library works on every kind of Tokio runtime, also a single-threaded one that runs both ends of a connection, and with handles used and dropped on other runtimes than the one they were made on or outside any runtime. It never occupies a thread: whatever peers send and however much there is to do, other tasks of a single-threaded runtime go on running. A runtime can be shut down at any moment under its listeners and connections: nothing panics, the shutdown finishes, the ports are free as soon as the handles are dropped, and an address serves again.",
 ["configurations","schedules","histories"],
 "all kinds of runtime, all moments of shutting one down, all traffic",
 "Every test runs on the single-threaded test runtime, one at a time, with a few messages, and none measures what else could run or ends a runtime early.",
 ["src/socket.rs","src/server.rs","src/arq.rs"],
 [("tasks","socket.rs start_receiver, start_tick, drop_watcher; server.rs listen, start_session_collect"),("drops","socket.rs and server.rs impl Drop"),("queue processing","arq.rs SendQ, RecvQ")],
 ["delays of a ticking task on the library's only thread, less the time the thread itself was not scheduled","end-to-end histories","panics","duration of the shutdown","rebinding the port"])

prop("C32", "Losses cost little",
 "Retransmission is fast, selective and patient only as far as it must be. A datagram with frames is acknowledged at once, not with the next tick, whether it is new, repeated, unreliable, a fragment or behind a gap; a gap is reported by a NACK within about a tick. A frame the peer reports missing, or passes over by acknowledging a later datagram, is sent again within about a tick however long its timer stands, and frames that were not asked for are not sent along with it. The timer follows the measured round trip: on a network that answers at once the first repetition comes within a tick or two of 50 ms, each further wait is at most half as long again as the one before (never doubled, never above about 12 s), and one frame's long wait does not slow the repetition of later frames. With half of the datagrams lost, messages sent every 30 ms still arrive within fractions of a second on average.",
 ["fault_sequences","histories","schedules"],
 "all sets of missing datagrams, all moments of NACKs and acknowledgements relative to the timers, all histories of round-trip times",
 "The tests check two acknowledged packets and a resend at fixed ticks of one queue; none measures when a datagram leaves a socket, what a NACK leaves alone, or how delays add up under loss.",
 ["src/arq.rs","src/socket.rs"],
 [("rto, srtt, times resent","arq.rs SendQ::update_rto, tick"),("frames asked for","arq.rs SendQ::nack_range, ack"),("acknowledgements","socket.rs start_receiver, start_tick")],
 ["time of every transmission of each frame at a raw peer that decides what it acknowledges and when","time from datagram to acknowledgement and from gap to NACK","delays of the README's benchmark"])

prop("C33", "Prompt and frugal on a network that works",
 "On a network that loses nothing and answers quickly: a message on an idle connection leaves at once and is returned by the peer's recv() within milliseconds, whatever its reliability; messages behind an unacknowledged one follow within a tick or two; connect(), accept(), ping(), flush() and close() return within fractions of a second, and the peer of a closed connection learns of it as fast. Every piece of data is sent once, every datagram is answered with at most one acknowledgement, nothing is reported missing, and a connection or listener that has nothing to say sends nothing. Once a connection has ended, in whatever way and with whatever outstanding, nothing more is sent to that peer.",
 ["inputs","histories","schedules"],
 "all message sequences of both sides, all ways of ending a connection with anything outstanding",
 "The tests wait for a few messages without a clock and look at no datagram; a needless delay, repetition or a task that keeps sending after the end passes all of them.",
 ["src/socket.rs","src/server.rs","src/arq.rs"],
 [("send path","socket.rs send, start_sender"),("queues","arq.rs SendQ::flush"),("end of the tasks","socket.rs start_tick, close, drop_watcher")],
 ["medians of durations at the public API","every datagram a raw peer receives from connection to nine seconds after the end"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
