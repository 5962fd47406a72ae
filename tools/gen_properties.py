#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Length-prefixed messages survive any segmentation of the byte stream",
  "Whatever sequence of messages is packed with the length-prefixed protocol, and however the resulting byte stream is cut into reads, each matching unpacker (plain, flexible, wrapping, non-copy) delivers exactly those messages, byte for byte, in order, once each, with heartbeats silently dropped. "
  "Stripped and unstripped modes differ only in the presence of the header, and the raw-data accessors always return the body.",
  ["inputs", "histories", "configurations"],
  "all message sequences, body sizes up to the limit (including empty heartbeats and maximum-size messages) and all ways to cut the stream into reads; stripped and unstripped; 2 and 4 byte headers",
  "the demos exchange whole messages over loopback where reads nearly always end on convenient boundaries; a test samples a few sizes, not every cut",
  ["include/ext/unpacker.h", "include/ext/packer.h", "include/tcp/socket.h"],
  [("completion_condition decides how much to read, parse_msg cuts the stream and keeps the remainder", "include/ext/unpacker.h unpacker, flexible_unpacker, non_copy_unpacker, unpacker2"),
   ("header encoding", "include/ext/packer.h packer::pack_msg, packer_helper::pack_header")],
  [("cur_msg_len/remain_len", "cursor in the receive buffer", "include/ext/unpacker.h")],
  ["messages returned by parse_msg"])

p("C02", "Delimited, fixed-length and raw streams are cut correctly for any segmentation",
  "With the prefix/suffix protocol every body that does not contain the suffix, with the fixed-length protocol every body of the agreed length, comes out exactly once, in order and byte for byte for every segmentation of the stream, stripped or not; empty (heartbeat) messages are never delivered. "
  "The stream unpacker delivers every byte exactly once in order.",
  ["inputs", "histories", "configurations"],
  "all message sequences over a small alphabet that makes delimiters collide with bodies, all cuts of the stream, prefixes and suffixes of length 0 to 2",
  "no test uses these unpackers with adversarial cuts (delimiter split over two reads, body ending with half a delimiter)",
  ["include/ext/unpacker.h", "include/ext/packer.h"],
  [("peek_msg / memmem search and remainder handling", "include/ext/unpacker.h prefix_suffix_unpacker"), ("fixed_length_unpacker, stream_unpacker", "include/ext/unpacker.h")])

p("C03", "A malformed stream is reported, contained and recoverable",
  "For every byte stream a peer can send, an unpacker never reads or writes outside its buffer and never asks for more bytes than it has room for; the valid messages in front of the malformed part are delivered, the malformed part is reported as an unpack error (reception never silently stalls), and after the reset that follows, a fresh valid stream is unpacked correctly. "
  "Data that is merely incomplete is never reported as malformed.",
  ["inputs", "histories", "fault_sequences"],
  "all byte strings up to a bound over an alphabet containing every boundary length value, in every segmentation, followed by a valid stream after reset",
  "no test sends malformed data at all",
  ["include/ext/unpacker.h", "include/tcp/socket.h"],
  [("length validation in completion_condition and parse_msg", "include/ext/unpacker.h"), ("on_unpack_error and unpacker reset", "include/tcp/socket.h recv_handler")],
  None, ["parse_msg result, on_unpack_error"])

p("C04", "Packers enforce the size limit and all packing forms agree on the wire",
  "For every list of fragments with a non-empty body, packing either fails leaving nothing half-written in the output, exactly when the packed message would exceed the configured limit or not fit the header (length-prefixed and delimited protocols), or yields exactly header/prefix + concatenated fragments + suffix; the gather, single, two-message and container forms produce the same bytes on the wire, native mode adds nothing, and the raw-data accessors return the body.",
  ["inputs", "configurations"],
  "all fragment lists with sizes around the limit (0, 1, limit-1, limit, limit+1, and lengths whose sum wraps), null fragments, all overloads, all packers",
  "tests only send messages well inside the limit through one or two overloads",
  ["include/ext/packer.h", "include/base.h"],
  [("msg_size_check and pack_header", "include/ext/packer.h packer_helper"), ("packer, packer2, fixed_length_packer, prefix_suffix_packer", "include/ext/packer.h")])

p("C05", "The message buffer class behaves like a byte string",
  "Every sequence of operations on the library's buffer class (construction from ranges, C strings and other buffers, append, append2, assign, resize, reserve, shrink, swap, erase, copy, clear) leaves it with exactly the contents, size and emptiness the same operations give on a plain byte string, keeps capacity at least size, and never touches memory outside its allocation, including when the source is part of the buffer itself or is empty.",
  ["inputs", "histories"],
  "all operation sequences up to a depth over a small argument domain",
  "the class is only exercised indirectly by the demos with a fixed pattern of calls",
  ["include/ext/ext.h"],
  [("basic_buffer", "include/ext/ext.h")])

p("C06", "Message queues are linearizable FIFOs with exact byte accounting",
  "Under any interleaving of concurrent producers and consumers, the locking message queue behaves like a sequential double-ended list: nothing is lost, duplicated or reordered, front insertion and bulk moves are atomic, and the reported size in bytes equals the sum of the queued messages whenever the queue is at rest. "
  "Bulk removal by bytes or by count takes exactly the shortest prefix that satisfies the request.",
  ["schedules", "histories"],
  "all interleavings (bounded preemptions) of two to three threads doing every pair and triple of queue operations, and all sequential operation sequences up to a depth",
  "the demos rarely contend on one queue and never check the byte counter",
  ["include/container.h"],
  [("lock_queue / queue", "include/container.h")],
  [("total_size", "bytes in the queue", "include/container.h")])

p("C07", "TCP sending: every accepted message hits the wire once, whole, in order",
  "On a connected TCP link every accepted message appears on the wire exactly once, its bytes contiguous, messages of one thread in the order that thread submitted them (priority messages ahead of everything still queued), for every interleaving of concurrent senders and service threads and every pattern of short or blocked writes; two writes never overlap. "
  "As long as the peer keeps reading, no accepted message stays in the send buffer forever.",
  ["schedules", "fault_sequences", "histories"],
  "all schedules with bounded preemptions of up to three sending threads and two service threads, and all bounded patterns of short writes/would-block",
  "loopback tests accept whole messages at once and sample a handful of schedules; the lost-wakeup window is a few instructions wide",
  ["include/socket.h", "include/tcp/socket.h", "include/container.h"],
  [("sending flag exchange, re-check after clear", "include/tcp/socket.h do_send_msg/send_handler; include/socket.h send_msg"), ("io strand", "include/socket.h rw_strand")],
  [("sending", "a write is in flight", "include/socket.h"), ("sending_msgs", "messages of the write in flight", "include/tcp/socket.h")])

p("C08", "Send buffer limit, shrinking, priority and guaranteed sending work as documented",
  "A non-overflow send is refused exactly when the send buffer already holds the configured number of bytes or more, an overflow send is always accepted; with buffer shrinking enabled the oldest messages are handed to the discard callback in order, covering at least the requested bytes and nothing more, and no other message is lost. "
  "The guaranteed ('safe') forms keep trying until accepted and give up only when the link is not ready; messages taken out of the send buffer by the user are never sent.",
  ["histories", "schedules", "configurations"],
  "all bounded sequences of sends, drains and pops with sizes around the limit, with and without shrinking, and bounded schedules of a blocked sender against the draining thread",
  "tests never fill the send buffer to its limit",
  ["include/socket.h", "include/base.h", "include/container.h"],
  [("shrink_send_buffer, is_send_buffer_available", "include/socket.h"), ("TCP_SEND_MSG, TCP_SAFE_SEND_MSG", "include/base.h")])

p("C09", "Send notifications and send errors account for every message exactly once",
  "Each message handed to the kernel is reported exactly once, in order and only after all its bytes were written, by whichever of the per-message, batch and all-sent notifications is configured; 'all sent' fires only when the send buffer is empty. "
  "When a write fails, the messages of that write are handed to the send-error callback exactly once and never also reported as sent.",
  ["schedules", "fault_sequences", "configurations"],
  "all notification configurations, bounded schedules, and an error injected at every write",
  "no test enables the notifications or injects write errors",
  ["include/tcp/socket.h", "include/socket.h"],
  [("send_handler", "include/tcp/socket.h"), ("batch_msg_send_size", "include/tcp/socket.h reader_writer")])

p("C10", "Received messages are dispatched once, in order, one at a time, until handled",
  "Every message unpacked from a link is passed to the application in arrival order by one callback at a time, again and again until the application accepts it, and never again afterwards, whatever the number of service threads and however receiving and dispatching interleave; in batch and synchronous dispatching, messages left behind are offered again and none is lost. "
  "No unpacked message stays undelivered while the link is alive.",
  ["schedules", "histories", "configurations"],
  "all schedules with bounded preemptions of the receiving and dispatching handlers, all bounded accept/refuse patterns of the callback, the plain, batch and synchronous dispatch modes",
  "echo tests always accept at once; the window between the dispatching flag and the queue check is never hit on purpose",
  ["include/socket.h", "include/tcp/socket.h"],
  [("do_dispatch_msg, dispatch strand and dispatching flag", "include/socket.h"), ("TIMER_DISPATCH_MSG retry", "include/socket.h"), ("on_msg remainder", "include/socket.h handle_msg")])

p("C11", "Receive buffer overflow suspends reading and always resumes, without losing data",
  "When the receive buffer reaches its limit no further read is started until the application has drained it below the limit; once drained, reading always resumes (within the resuming interval), every byte sent by the peer is eventually delivered in order, and the suspension is reflected by the idle indication.",
  ["schedules", "histories"],
  "bounded schedules of the resume timer, dispatcher and reader, all bounded refuse/accept patterns, limits of one or two messages",
  "tests drain immediately so the suspended state is hardly ever entered",
  ["include/socket.h", "include/tcp/socket.h"],
  [("handled_msg, check_receiving, TIMER_CHECK_RECV", "include/socket.h")])

p("C12", "Passive receiving reads exactly on request",
  "With passive receiving the library starts the first read of a link by itself (none at all when synchronous receiving is also enabled) and afterwards reads only when asked; at most one read is outstanding however many requests are made from however many threads, every completed read gives the application a callback in which it can ask again, and no request made while nothing is outstanding is lost.",
  ["schedules", "histories"],
  "bounded schedules of requests from callbacks and from foreign threads against the completion of reads",
  "no test uses passive receiving",
  ["include/socket.h", "include/tcp/socket.h", "include/udp/socket.h"],
  [("reading flag", "include/socket.h recv_msg, test_and_set_reading; include/tcp/socket.h do_recv_msg/recv_handler")])

p("C13", "Synchronous sends return exactly one truthful result and never hang",
  "A synchronous send reports success only after its message was completely written, reports not-applicable when the message was not and will not be written, reports timeout only after the given time, and with no time limit always returns once the message is sent, refused, taken back or discarded, or the link is closed for good (a reconnecting client keeps the message for the next link) or the service stopped. (A message the packer rejects is reported by the packer, not by the result.) "
  "No completion is ever signalled twice.",
  ["schedules", "fault_sequences", "histories"],
  "bounded schedules of one to two synchronous senders against service threads, link failure, shutdown and buffer popping at every point, TCP and UDP",
  "no test uses synchronous sending",
  ["include/socket.h", "include/tcp/socket.h", "include/udp/socket.h", "include/base.h"],
  [("promise carried by the queued message", "include/base.h obj_with_begin_time_promise; include/socket.h do_direct_sync_send_msg"), ("completion in send_handler and on_close", "include/tcp/socket.h")])

p("C14", "Synchronous receives hand every message to exactly one consumer and never hang",
  "A synchronous receive returns messages that are delivered nowhere else, in order, messages it did not take go to the asynchronous callbacks, a second concurrent receive is refused as duplicate, timeout is reported only after the given time, and a waiting receive always returns when the link fails, is shut down or the service stops.",
  ["schedules", "fault_sequences", "histories"],
  "bounded schedules of a waiting receiver (with and without time limit) against arriving data, shutdown from any thread, link failure and timeout",
  "no test uses synchronous receiving",
  ["include/socket.h", "include/tcp/socket.h"],
  [("sr_status handshake on sync_recv_mutex/sync_recv_cv", "include/socket.h sync_recv_msg, handle_msg, handle_error, close")])

p("C15", "Timers fire once per interval, in sequence, and never after being stopped",
  "A started timer calls back once per elapsed interval as long as the callback asks to continue, never early, never concurrently with itself, and keeps its most recent interval and callback; restarting replaces the pending expiry, and no callback runs that expires after the timer was stopped by the same thread. "
  "Timers with different ids and on different objects do not affect each other; the running indication always matches.",
  ["histories", "schedules", "configurations"],
  "all bounded sequences of set/stop/start/update calls inside and outside callbacks on two timers, aligned and unaligned, with every order of simultaneously due events",
  "the demos use long periodic timers only",
  ["include/timer.h"],
  [("status and sequence number checks in timer_handler", "include/timer.h"), ("timer list under mutex", "include/timer.h")])

p("C16", "A link is closed exactly once and nothing runs on it afterwards",
  "For every started socket the close notification is delivered exactly once per start, whatever combination of peer close, network error, unpack error, concurrent shutdowns and service stop ends the link, and no other callback, timer or asynchronous call of that socket is running or runs after it. "
  "A socket object becomes reusable or freeable only when no asynchronous operation refers to it.",
  ["schedules", "fault_sequences", "histories"],
  "bounded schedules of two service threads and one foreign thread with close triggered at every point of a short exchange by every trigger",
  "stress tests close idle links; the overlapping of two triggers with in-flight handlers is not enumerated",
  ["include/socket.h", "include/tracked_executor.h", "include/timer.h", "include/tcp/socket.h"],
  [("start_atomic / started_", "include/socket.h start, close"), ("asynchronous call indicator", "include/tracked_executor.h"), ("TIMER_DELAY_CLOSE polling", "include/socket.h timer_handler")])

p("C17", "Graceful shutdown loses no received data and always terminates",
  "After a graceful shutdown the peer sees end-of-stream after everything already written, data still sent by the peer is delivered, nothing submitted afterwards goes out on that link, and the link ends in the close notification as soon as the peer closes, or within the configured maximum duration if it never does. "
  "Any order of graceful and forced shutdowns, from any threads, ends in a single close.",
  ["schedules", "fault_sequences", "histories"],
  "bounded schedules of shutdown calls against data transfer, all peer behaviours (closes at once, sends more then closes, never closes, resets)",
  "tests shut down idle links whose peer cooperates",
  ["include/tcp/socket.h", "include/tcp/client_socket.h", "include/tcp/server_socket.h"],
  [("_graceful_shutdown, shutdown_handler, TIMER_ASYNC_SHUTDOWN", "include/tcp/socket.h")])

p("C18", "Clients connect, retry and reconnect exactly as configured",
  "A started client keeps trying to connect at the configured interval until it succeeds, is told to stop, or its retry hook gives up; it announces each successful connection exactly once, reconnects after a lost link exactly when reconnecting is enabled, and after a shutdown reconnects exactly when asked to. "
  "At no time has one client more than one connection attempt or connection, and after giving up it is closed, not left half-started.",
  ["fault_sequences", "schedules", "histories"],
  "all bounded sequences of connect outcomes (success, refused, never completing), link losses and shutdown calls with both reconnect flags, in every order relative to the timers",
  "tests reconnect once or twice under ideal conditions",
  ["include/tcp/client_socket.h", "include/socket.h", "include/timer.h"],
  [("TIMER_CONNECT / TIMER_CONNECT_DELAY, prepare_next_reconnect", "include/tcp/client_socket.h"), ("after_close restarts", "include/tcp/client_socket.h")])

p("C19", "The object pool never loses, duplicates or exceeds its objects",
  "At all times every object in the pool has a unique id under which it can be found, the number of live objects never exceeds the configured maximum, a removed object is moved exactly once to the list of invalid objects and stays valid for everybody who still holds it, and changing an id succeeds only for a free id and keeps the object findable under exactly one id. "
  "This holds for any interleaving of additions, removals, searches, clean-ups and id changes.",
  ["histories", "schedules"],
  "all bounded operation sequences against a reference model and bounded schedules of concurrent operations on two to three objects",
  "tests only add and remove links through the normal connect/disconnect path",
  ["include/object_pool.h"],
  [("object_can / invalid_object_can under their mutexes", "include/object_pool.h")])

p("C20", "Objects are freed, reused or restored only when nobody and nothing uses them",
  "An invalid socket object is freed, recycled for a new link or consumed by restoration only after it was closed, all its asynchronous work is finished and no user holds it; a recycled object starts with none of the previous link's data, state or timers and with its own id; restoration gives the new link the old id and calls the take-over hook once, or changes nothing.",
  ["histories", "schedules", "configurations"],
  "bounded schedules and histories of connect, close, hold reference, free, recycle and restore",
  "demos recycle links only in an idle system",
  ["include/object_pool.h", "include/socket.h", "include/tcp/server.h"],
  [("unique() && obsoleted()", "include/object_pool.h"), ("reset()", "include/socket.h, include/tcp/socket.h, include/tcp/client_socket.h"), ("restore_socket", "include/tcp/server.h")])

p("C21", "The server accepts every connection it has room for and keeps accepting",
  "While listening, the server accepts every incoming connection, starts each accepted link exactly once, refuses links over the configured maximum or vetoed by the accept hook without disturbing others, keeps the configured number of accepts pending, and stops accepting for good once told to stop; a later restart listens again.",
  ["schedules", "histories", "fault_sequences"],
  "bounded schedules of two to three connecting peers, accept errors, veto, maximum reached, stop and restart",
  "tests connect well below the maximum and never inject accept errors",
  ["include/tcp/server.h", "include/object_pool.h"],
  [("do_async_accept, accept_handler, start_next_accept", "include/tcp/server.h"), ("stop_listen", "include/tcp/server.h")])

p("C22", "Broadcast and pool-wide operations reach every current link exactly once",
  "A broadcast queues the message once on every link that is in the pool at that moment and on no other, in the order broadcasts were issued, for every overload and on servers as well as multi-link clients; pool-wide shutdowns affect every link, and the shutdown forms taking one link remove and close only that link.",
  ["schedules", "histories"],
  "bounded histories of two to three links joining, leaving and broadcasting",
  "the broadcast demo checks a stable set of links only",
  ["include/base.h", "include/tcp/server.h", "include/tcp/client.h", "include/object_pool.h"],
  [("TCP_BROADCAST_MSG over do_something_to_all", "include/base.h"), ("disconnect/force_shutdown/graceful_shutdown", "include/tcp/server.h, include/tcp/client.h")])

p("C23", "The service pump starts, stops and restarts its services completely",
  "Starting the pump initialises every registered service once; stopping it uninitialises every started service once, ends all service threads, finalises every service, leaves nothing running and always returns; the pump can then be started again with the same result. "
  "Services can be added, found, started, stopped and removed individually at run time, an exception thrown by a callback does not end the pump unless the hook says so, and without work guard the pump ends by itself when there is no work left.",
  ["schedules", "histories", "configurations"],
  "all bounded sequences of pump operations and bounded schedules of stopping against running handlers",
  "tests start and stop the pump a few times in one order",
  ["include/service_pump.h", "include/single_service_pump.h", "include/socket_service.h"],
  [("do_service, end_service, wait_service", "include/service_pump.h"), ("add/remove/stop_and_free", "include/service_pump.h")])

p("C24", "io_context references are balanced and new objects go to the least loaded one",
  "With several io_contexts, each new acceptor, service or socket is placed on the io_context with the fewest references, every object's references are returned exactly once when it is closed or destroyed (and taken again when it is reused or restarted), so that the counts always equal what the live objects hold and return to their initial value; new service threads go to the io_context with the fewest threads.",
  ["histories", "configurations"],
  "all bounded histories of creating, starting, closing, recycling and destroying objects on two to three io_contexts",
  "no test inspects the reference counts",
  ["include/service_pump.h", "include/timer.h", "include/tcp/server.h", "include/tcp/client_socket.h", "include/tcp/server_socket.h", "include/socket_service.h", "include/udp/socket.h"],
  [("assign_io_context/return_io_context", "include/service_pump.h"), ("io_context_refs", "include/timer.h, include/tcp/server.h")])

p("C25", "Changing the number of service threads at run time is exact",
  "Adding or removing service threads at run time ends with exactly the requested number of threads (but never fewer than one while the pump runs), the reported thread number converges to the real one, pending work is never lost, and stopping the pump still ends every thread.",
  ["schedules", "histories"],
  "bounded schedules of thread additions and removals against running and blocked service threads",
  "no test removes threads",
  ["include/service_pump.h"],
  [("real_thread_num / del_thread_num in run", "include/service_pump.h")])

p("C26", "UDP messages keep their boundaries, addresses and order",
  "Each accepted UDP message is sent exactly once as one datagram to the address given (or the configured peer), in the order accepted, and a failed send is reported once and does not stop later messages; each received non-empty datagram up to the buffer size is delivered exactly once with its sender's address, as long as receiving has not failed with an error. "
  "Closing and restarting a UDP socket follows the same rules as for TCP links, and no accepted message stays queued while the socket is open.",
  ["schedules", "fault_sequences", "histories"],
  "bounded schedules of two senders and two service threads, an error injected at every send, connected and unconnected mode",
  "the UDP test exchanges a few datagrams one at a time",
  ["include/udp/socket.h", "include/udp/socket_service.h", "include/base.h", "include/ext/unpacker.h"],
  [("do_send_msg/send_handler/recv_handler", "include/udp/socket.h")])

p("C27", "SOCKS4/SOCKS5 negotiation is correct for every proxy behaviour",
  "Through a SOCKS4 or SOCKS5 proxy the client sends exactly the bytes the protocol prescribes for its target (IPv4, IPv6 or name) and credentials, proceeds to the application protocol exactly when the proxy's reply grants the request, and otherwise closes the connection and ends the link without announcing it, for every reply content and segmentation, leaving the byte stream behind the reply untouched. A shutdown during the negotiation ends it, and every reconnection negotiates anew with the same bytes.",
  ["inputs", "fault_sequences"],
  "all reply codes, method selections, address types and lengths, every segmentation and truncation of the replies, with and without credentials",
  "no test uses a proxy",
  ["include/tcp/proxy/socks.h"],
  [("socks4/socks5 client_socket_base state machines", "include/tcp/proxy/socks.h")])

p("C28", "Heartbeats keep idle links alive and detect dead ones in time",
  "With heartbeats enabled (times are counted in whole seconds), a link that has sent nothing for an interval (or always, when so configured) sends one heartbeat at the periodic check, a TCP link that has received nothing for interval times the maximum absence is declared broken and closed at the next check and never earlier while a UDP socket only reports it and stays open, heartbeats of the packers that support them are never delivered as messages, and a link with working heartbeats in both directions is never broken by the check when the maximum absence is at least two intervals.",
  ["histories", "schedules", "configurations"],
  "all bounded timings of traffic relative to the checks, one-sided and two-sided silence, both always-send settings",
  "heartbeat intervals are seconds long and no test waits for them",
  ["include/socket.h", "include/tcp/socket.h", "include/ext/packer.h", "include/ext/unpacker.h"],
  [("check_heartbeat, start_heartbeat", "include/socket.h")])

p("C29", "Statistics add up",
  "At rest, a link's counters equal the number and bytes of the messages (pieces produced by the packer) whose writing completed and of the messages unpacked, its establish, break and last-activity times match the events, a server's statistic is the sum over its links, a recycled link starts from zero, a reset zeroes all members, sums and differences of statistics are member-wise, and with full statistics each accumulated duration equals the sum of its (non-negative) samples with correct minimum, maximum and count (packing by one thread at a time).",
  ["inputs", "histories", "configurations"],
  "all bounded traffic histories with controlled clock, and all bounded sequences of the arithmetic operations",
  "the demos print statistics but nothing checks them",
  ["include/base.h", "include/socket.h", "include/tcp/socket.h", "include/udp/socket.h"],
  [("struct statistic, auto_duration", "include/base.h"), ("counter updates in handlers", "include/tcp/socket.h, include/socket.h")])

p("C30", "WebSocket links carry messages like plain links and end cleanly",
  "Over WebSocket (plain or TLS) each non-empty message sent arrives exactly once, whole and in order in the configured text/binary mode however it is fragmented, an empty message does no harm, a link is announced only after a successful handshake, a failed handshake ends the link without announcing it, shutdowns from either side end in exactly one close notification on both sides, and the stream of a link is never used by two threads at the same time.",
  ["schedules", "fault_sequences", "histories"],
  "bounded schedules and network behaviours (segmentation, loss of the link at every step of handshake, transfer and close)",
  "the websocket test exchanges a few messages on a perfect link, and its shutdown cases are flaky",
  ["include/tcp/websocket/websocket.h", "include/tcp/websocket/ssl/ssl.h", "include/ext/websocket.h", "include/ext/ssl_websocket.h"],
  [("handshake and close wrapping", "include/tcp/websocket/websocket.h")])

p("C31", "TLS links carry messages like plain links and end cleanly",
  "Over TLS each message sent arrives exactly once, whole and in order, a link is announced only after a successful handshake, a failed handshake ends the link without announcing it, and forced and graceful shutdowns from either side end in exactly one close notification on both sides within the configured maximum duration; the TLS stream of a link is never used by two threads at the same time.",
  ["schedules", "fault_sequences", "histories"],
  "bounded schedules and network behaviours (segmentation, loss of the link at every step of handshake, transfer and shutdown)",
  "the TLS test exchanges a few messages on a perfect link, and its shutdown cases are flaky",
  ["include/tcp/ssl/ssl.h", "include/ext/ssl.h"],
  [("handshake, async_shutdown and monitoring", "include/tcp/ssl/ssl.h")])

p("C32", "Log formatting is bounded and terminated",
  "For every message length, head and buffer size the log formatter writes only inside the given buffer, always leaves a terminated string, and produces the complete head, thread, time and text whenever they fit and a truncated prefix of it otherwise.",
  ["inputs"],
  "all text lengths around the buffer size, all small buffer sizes, with and without head",
  "tests log short lines into a 2 KB buffer",
  ["include/base.h"],
  [("log_formater::all_out, to_time_str", "include/base.h")])

p("C33", "Run-time callbacks see exactly the events of the virtual functions they extend",
  "A callback registered at run time (as functor or function) on a socket (TCP client or server, UDP), server or pool object is called once for every occurrence of its event with the object and the event's arguments; the built-in handling follows exactly when the callback was registered to pass the event on (and, for events with a yes/no result, only after a yes); the result is the built-in one when passed on and the callback's otherwise; replacing, removing or not registering a callback leaves the built-in behaviour unchanged.",
  ["histories", "configurations"],
  "every callback of every callback class with pass-on and result variations, in bounded histories of the link life cycle",
  "no test registers callbacks",
  ["include/ext/callbacks.h"],
  [("ext::callbacks wrappers", "include/ext/callbacks.h")])

p("C34", "Unix-domain stream and datagram links behave like their IP counterparts",
  "Over Unix-domain stream sockets messages are delivered exactly once, whole and in order, and links connect, close and are announced as over TCP (the application removes a socket file left behind before its path is listened on again); over Unix-domain datagram sockets each message is one datagram delivered once with its sender's path.",
  ["schedules", "fault_sequences", "histories"],
  "bounded schedules and short reads/writes for the stream variants, bounded schedules and send errors for the datagram variants",
  "the unix socket tests exchange a few messages on an idle system",
  ["include/tcp/client_socket.h", "include/tcp/server_socket.h", "include/tcp/server.h", "include/udp/socket.h"],
  [("unix_client_socket_base, unix_server_socket_base, unix_server_base, udp::unix_socket_base", "include/tcp/*.h, include/udp/socket.h")])

p("C35", "Reliable UDP delivers every message once in order over a lossy network",
  "Over a network that drops, duplicates and reorders datagrams, reliable UDP links deliver every accepted message exactly once and in order as long as both ends stay up and some datagrams get through.",
  ["fault_sequences", "schedules"],
  "all bounded patterns of loss, duplication and reordering",
  "the test program cannot even be built here",
  ["include/udp/reliable_socket.h", "include/ext/reliable_udp.h"],
  [("KCP binding", "include/udp/reliable_socket.h")])

p("C36", "The file transfer application delivers files byte for byte",
  "Over links that stay up, the file server and client shipped with the library transfer every listed file, one after the other, in both directions so that the copy equals the original byte for byte for every file size and link count, however the network cuts the data and the service threads are scheduled; a file that cannot be opened or created is reported and the next one is transferred; nothing is written outside of the requested range, and the server answers every order of any peer as the protocol (file_common/common.h) says, refusing those with impossible offsets or lengths.",
  ["inputs", "schedules", "configurations"],
  "all file sizes around the block, buffer and link-count boundaries, one to three links, bounded segmentation and schedules",
  "the repository's stable tests do not transfer files",
  ["file_server/file_socket.cpp", "file_server/file_socket.h", "file_server/file_server.cpp", "file_client/file_client.h", "file_client/file_client.cpp", "file_common/file_buffer.h", "file_common/unpacker.h", "file_common/common.h"],
  [("range split per link and offset bookkeeping", "file_client/file_client.h"), ("data unpacker", "file_client, file_common")])

p("C37", "Receiving and sending callbacks of one link exclude each other",
  "However many service threads run, no two of the callbacks by which one link reports its receiving and sending (synchronous on_msg, on_unpack_error, on_recv_error, on_msg_send, on_all_msg_send, on_send_error) ever run at the same time; different links may run theirs in parallel.",
  ["schedules", "fault_sequences"],
  "all bounded schedules of receiving, sending, send errors and link ends of one link with two and three service threads",
  "an overlap needs a completion of sending while a receive callback is running in another thread, which tests hardly ever meet",
  ["include/tcp/socket.h", "include/udp/socket.h", "include/socket.h"],
  [("rw_strand", "include/socket.h, include/tcp/socket.h, include/udp/socket.h")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
for x in P:
    if len(x["title"]) > 80: print("TITLE", x["id"], len(x["title"]))
