#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [state]
    if observe: a["observe_at"] = [observe]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

PIPE=["lib/proto/proto_pipe.c","lib/proto/proto_crypt.c","lib/proto/proto_conn.c","libcperciva/netbuf/netbuf_read.c","libcperciva/network/network_read.c","libcperciva/network/network_write.c"]
HS=["lib/proto/proto_handshake.c","lib/proto/proto_crypt.c","lib/proto/proto_conn.c","libcperciva/crypto/crypto_dh.c"]

p("P01","Tunnelled bytes arrive unmodified, in order, exactly once",
  "For every connection carried by an encrypting and a decrypting daemon, in each direction the bytes handed to the receiving application are at every moment a prefix of the bytes the sending application wrote on that same connection: nothing is altered, duplicated, reordered, skipped or taken from another connection. This holds however the data is fragmented, delayed or short-read/short-written, whichever system calls are interrupted, and when connections or the processes themselves die in the middle.",
  ["schedules","fault_sequences","inputs"],
  "All interleavings of reads, writes, segment arrivals and application activity over several concurrent connections; all segmentations and short transfers; process kills and resets at any point.",
  "The shell tests send a few fixed payloads over loopback, where the kernel hardly ever produces short transfers, EAGAIN after readiness, or unlucky packet boundaries; corruption that needs a specific boundary or interleaving never shows.",
  PIPE,[("packet loop and output buffer","lib/proto/proto_pipe.c: callback_pipe_read"),("buffer moves","libcperciva/netbuf/netbuf_read.c: netbuf_read_wait"),("resume after short transfer","libcperciva/network/network_write.c: callback_buf")],
  observe="plaintext sockets of both applications")
p("P02","Everything sent is delivered, with independent half-closes",
  "When no fault breaks a connection, every byte written by either application is eventually delivered to the other, followed by end-of-file once the writer has finished; finishing one direction leaves the other direction usable for as long as it is needed; and once both directions are finished both daemons close their sockets for that connection.",
  ["schedules","inputs","histories"],
  "All data sizes, pacing, orders of half-close, buffer sizes, stalls that heal, slow readers, short transfers and spurious wake-ups.",
  "Tests use short exchanges closed from one side; lost wake-ups, a last fragment dropped at end-of-file, or one direction's end killing the other need particular orders of close and buffering.",
  PIPE,[("end-of-file propagation","lib/proto/proto_pipe.c: callback_pipe_read eof:"),("close when both directions done","lib/proto/proto_conn.c: callback_pipestatus")],
  observe="plaintext sockets, open descriptors of the daemons")
p("P03","Tampering with the encrypted stream is never passed on",
  "If anyone on the network flips, inserts, removes, duplicates, reorders, replays, reflects or cross-splices bytes of the encrypted stream - handshake or data - the receiving application still only ever gets a prefix of the true data, nothing at or after the first modified byte is delivered, and that connection is torn down so both applications see it end. Other connections of the same daemons are not affected.",
  ["inputs","fault_sequences","schedules"],
  "All byte offsets, packet positions, directions, kinds of modification and timings, including modifications that align to packet boundaries and packets taken from the opposite direction, earlier packets or another connection under the same key.",
  "Unit tests check one packet function on fixed vectors; no test runs an active attacker against live daemons.",
  PIPE,[("packet authentication with sequence number","lib/proto/proto_crypt.c: proto_crypt_dec"),("per-direction keys","lib/proto/proto_crypt.c: proto_crypt_mkkeys / lib/proto/proto_handshake.c: handshakedone"),("drop on error","lib/proto/proto_conn.c: callback_pipestatus")],
  observe="plaintext sockets; wire")
p("P04","No data crosses before the peer has proven the shared key",
  "A decrypting daemon never sends its target a single byte, and an encrypting daemon or command-line client never delivers a single byte to its local application nor emits any byte depending on local data, on behalf of a peer that does not hold the same key file: wrong key, garbage, truncated or mutated handshake, replay of a recorded session (against the same or a restarted daemon), reflection of the daemon's own messages, or messages of the wrong role. Every such peer's connection is dropped.",
  ["inputs","histories","fault_sequences","schedules"],
  "All handshake contents, fragmentations and orders (before or after the outgoing connection completes), all recorded histories replayed in any order, all role confusions.",
  "Tests only try a wrong key once; they have no attacker that replays, reflects or mutates handshakes, or that races the handshake against a slow or failing target connection.",
  HS,[("MAC over DH value with nonce-bound keys","lib/proto/proto_crypt.c: proto_crypt_dh_validate"),("pipes start only after handshake and connect","lib/proto/proto_conn.c: callback_handshake_done, callback_connect_done")],
  observe="target-side socket, wire, client-side socket")
p("P05","The wire protocol is exactly the published one, in both roles",
  "Both roles interoperate with an independent implementation of the published protocol (nonces, MACed Diffie-Hellman values, key derivation, 1024-byte padded packets with length, counter-mode encryption and per-packet MAC with packet number), with and without perfect forward secrecy, regardless of which CPU acceleration is used and for arbitrarily many packets; every byte they emit is what that specification prescribes, every packet the specification allows is accepted, and a packet with a forbidden length is rejected.",
  ["inputs","configurations","schedules"],
  "All payload sizes, packet counts, fragmentations of the handshake and packets, accelerated and portable crypto code on either end.",
  "Tests run the program against itself, so a symmetric deviation (wrong key split, wrong counter, wrong padding) that breaks compatibility and possibly secrecy passes them; interop for long streams and odd fragmentation is never exercised.",
  HS+["DESIGN.md","libcperciva/crypto/crypto_aesctr.c","libcperciva/crypto/crypto_aesctr_aesni.c","libcperciva/alg/sha256.c","libcperciva/alg/sha256_shani.c"],
  [("packet format","lib/proto/proto_crypt.c: proto_crypt_enc / proto_crypt_dec"),("key derivation","lib/proto/proto_crypt.c: proto_crypt_dhmac, proto_crypt_mkkeys"),("counter-mode streams","libcperciva/crypto/crypto_aesctr_aesni.c: crypto_aesctr_aesni_stream")],
  observe="wire, against a reference peer")
p("P06","Nonces, exponents and keystreams are never reused",
  "Across all connections, directions, daemon restarts and both roles, no nonce, Diffie-Hellman public value (other than the value 1 of the no-forward-secrecy mode) or packet keystream is ever used twice, whether or not other peers misbehave or replay. If the system's randomness source fails, the daemon establishes no session with predictable values: it refuses the connection or exits. A long-lived daemon keeps drawing fresh randomness from that source.",
  ["histories","crash_points","fault_sequences"],
  "All sequences of connections, restarts after kills at any point, read faults, short reads and failures of the randomness source, replayed peer nonces, and more connections than one reseed interval.",
  "A unit test cannot see repetition across restarts, nor the effect of a failing or short randomness read at an arbitrary time.",
  ["libcperciva/crypto/crypto_entropy.c","libcperciva/util/entropy.c","lib/proto/proto_handshake.c","libcperciva/crypto/crypto_dh.c"],
  [("reseeding generator","libcperciva/crypto/crypto_entropy.c: crypto_entropy_read"),("randomness read loop","libcperciva/util/entropy.c: entropy_read_fill"),("nonce generation","lib/proto/proto_handshake.c: proto_handshake")],
  observe="wire")
p("P07","Forward-secrecy options are honoured against any peer",
  "With the require-forward-secrecy option no data is ever exchanged with a peer that uses the weak value 1, whatever else the peer does; without it such peers are served; with the disable option the daemon uses the value 1 and still interoperates with every non-requiring peer. A Diffie-Hellman value not smaller than the group modulus is always rejected. No other value (the degenerate 0 and p-1 apart, about which nothing is said) is rejected, however much it resembles 1.",
  ["inputs","configurations","schedules"],
  "All combinations of options on both ends (including an adversarial peer that holds the key), boundary Diffie-Hellman values, and handshake timings.",
  "The shell tests cover two option combinations with honest peers only.",
  HS,[("weak value check","lib/proto/proto_crypt.c: is_not_one, proto_crypt_dh_validate"),("group range check","libcperciva/crypto/crypto_dh.c: crypto_dh_sanitycheck")],
  observe="wire and plaintext sockets, against a reference peer")
p("P08","Connect and handshake time limits bite, and only when they should",
  "A connection whose outgoing connect or handshake has not finished within the configured timeout is dropped soon after the timeout expires, never before, however the peer trickles, stalls or interleaves; the two limits are independent of each other and of other connections. Once established, a connection is never dropped for being idle or slow, however long.",
  ["schedules","fault_sequences","configurations"],
  "All timings of connect completion, handshake bytes and stalls around the limit, all timeout values, wall-clock jumps, many connections with overlapping deadlines.",
  "Real-time tests cannot explore many deadline orders or hour-long idleness; a timer cancelled in the wrong path or armed for the wrong phase shows up only at specific relative timings.",
  ["lib/proto/proto_conn.c","libcperciva/events/events_timer.c","libcperciva/datastruct/timerqueue.c","libcperciva/util/monoclock.c"],
  [("connect timer","lib/proto/proto_conn.c: callback_connect_timeout"),("handshake timer","lib/proto/proto_conn.c: callback_handshake_timeout"),("timer queue","libcperciva/datastruct/timerqueue.c")],
  observe="sockets and simulated clock")
p("P09","The connection limit is never exceeded and never leaks",
  "A daemon started with a connection limit never serves more than that many connections at once; while fewer are active it accepts waiting clients promptly, and each ended connection - whatever the reason it ended - frees its place, so clients queued at the limit are eventually served. With the limit disabled there is no cap.",
  ["histories","schedules","fault_sequences"],
  "All orders of arrivals, failures (refused target, failed handshake, timeouts, resets, aborted connects) and closes around the limit, and all limits.",
  "Needs many connections ending for different reasons while others wait; tests open at most a few.",
  ["spiped/dispatch.c","libcperciva/network/network_accept.c"],
  [("connection accounting","spiped/dispatch.c: doaccept, callback_conndied, callback_gotconn")],
  observe="accepted sockets of the daemon")
p("P10","One peer cannot disturb the daemon or other connections",
  "Nothing that remote peers, local clients or targets do on their connections - resets, garbage, half-opens, stalls, not reading, vanishing mid-handshake or mid-packet, refusing or black-holing connects, connections on which a send, receive or shutdown fails with any error - makes the daemon exit, hang or stop accepting, and the other connections keep progressing and complete intact while it happens.",
  ["schedules","fault_sequences","inputs"],
  "All mixes of misbehaving and well-behaved connections, all points at which a peer misbehaves, both daemon roles.",
  "Tests run one well-behaved connection at a time on loopback.",
  ["spiped/dispatch.c","lib/proto/proto_conn.c","lib/proto/proto_pipe.c","libcperciva/network/network_accept.c","libcperciva/network/network_connect.c","libcperciva/events/events_network.c"],
  [("per-connection error handling","lib/proto/proto_conn.c: proto_conn_drop, callback_pipestatus"),("accept retry","libcperciva/network/network_accept.c: callback_accept"),("non-blocking I/O","libcperciva/network/network_write.c")],
  observe="daemon liveness, progress of the other connections")
p("P11","SIGTERM drains gracefully",
  "After SIGTERM a daemon stops accepting new connections within a couple of seconds, lets every existing connection finish undisturbed, and exits with success once the last one has ended (at once if there is none), whatever those connections do meanwhile and whenever the signal arrives.",
  ["schedules","histories","fault_sequences"],
  "All signal arrival points (startup, idle, mid-handshake, mid-transfer, at the connection limit), all later connection endings.",
  "One real-time test covers a single signal timing.",
  ["lib/util/graceful_shutdown.c","spiped/dispatch.c","spiped/main.c"],
  [("signal flag polled by timer","lib/util/graceful_shutdown.c: graceful_shutdown"),("drain accounting","spiped/dispatch.c: dispatch_request_shutdown, callback_conndied")],
  observe="process exit status and time, accepts, connection completion")
p("P12","Target re-resolution follows DNS without disturbing service",
  "With a re-resolution interval, connections started after the target name's addresses have changed and been re-resolved go to the new addresses, while existing connections are unaffected; a failed, slow or hanging lookup keeps the last good addresses and never blocks traffic, and later lookups continue. With re-resolution disabled the name is resolved once; with the wait-for-DNS option start-up retries until resolution succeeds, otherwise it fails.",
  ["schedules","histories","fault_sequences"],
  "All sequences of DNS answers, failures and delays relative to connections, timers and shutdown, including the resolver thread's interleaving with the main thread.",
  "Tests have no controllable resolver and cannot order the resolver thread against the event loop.",
  ["lib/dnsthread/dnsthread.c","spiped/dispatch.c","spiped/main.c"],
  [("resolver thread protocol","lib/dnsthread/dnsthread.c: workthread, dnsthread_resolveone, callback_resolveone"),("address swap","spiped/dispatch.c: callback_resolve")],
  observe="addresses contacted, traffic during lookups")
p("P13","Target addresses are tried in order until one connects",
  "For each new connection the daemon or client tries the resolved target addresses in order until one connects, binding to the configured source address when one is given; if all fail only that connection is dropped and no data is lost or delivered to a half-failed address. A refused, reset, unreachable or locally failing attempt moves on to the next address.",
  ["fault_sequences","inputs","schedules"],
  "All combinations of per-address outcomes (success, refusal, unreachable, local socket/bind/connect errors, interruption) and their timings.",
  "Multi-address targets with mixed failures are not exercised by any test.",
  ["libcperciva/network/network_connect.c","libcperciva/util/sock.c","libcperciva/util/sock_util.c","lib/proto/proto_conn.c"],
  [("address iteration","libcperciva/network/network_connect.c: tryconnect, dofailed, callback_connect"),("bind then connect","libcperciva/util/sock.c: sock_connect_bind_nb")],
  observe="connection attempts seen by the network")
p("P14","The command-line client relays both directions and reports the outcome",
  "The command-line client sends all of its standard input to the far application and writes everything the far application sends to its standard output, ends when both directions have ended, and then exits with success; output is always a prefix of what was sent. If it cannot connect, the handshake fails, the stream is tampered with or the connection breaks, it exits with failure promptly rather than hanging, even while its standard input stays open.",
  ["schedules","fault_sequences","inputs"],
  "All interleavings of its two copy threads with the event loop, all sizes, short and interrupted reads/writes, slow or absent readers on standard output, failures at any phase.",
  "Thread interleavings and short pipe transfers are chosen by the kernel in tests; failure phases beyond connection refusal are not tested.",
  ["spipe/main.c","spipe/pushbits.c","lib/util/pthread_create_blocking_np.c","lib/util/graceful_shutdown.c"],
  [("copy threads","spipe/pushbits.c: workthread"),("joining and exit status","spipe/main.c: main, callback_conndied"),("thread cancellation","spipe/main.c: callback_graceful_shutdown")],
  observe="stdin/stdout pipes, exit status")
p("P15","Every ended connection returns all its resources",
  "Whatever way connections end - normal close, refusal, timeout, bad handshake, tampering, reset, shutdown - the daemon afterwards holds exactly the descriptors it held before and no growing memory or timers; no descriptor is closed twice or used after being closed.",
  ["histories","fault_sequences","schedules"],
  "All sequences of connection outcomes, repeated any number of times.",
  "Leaks on failure paths need hundreds of failing connections or per-path accounting; valgrind runs only cover the happy paths.",
  ["lib/proto/proto_conn.c","lib/proto/proto_handshake.c","lib/proto/proto_pipe.c","spiped/dispatch.c","libcperciva/network/network_connect.c","libcperciva/events/events_network.c"],
  [("connection teardown","lib/proto/proto_conn.c: proto_conn_drop"),("cancel paths","lib/proto/proto_handshake.c: handshakefail, proto_handshake_cancel; lib/proto/proto_pipe.c: proto_pipe_cancel")],
  observe="descriptor table and heap of the process")
p("P16","Resource failures never cause memory errors or wrong data",
  "If any memory allocation or system call fails at any point, a daemon or client either carries on correctly, drops the affected connection, or exits with a failure status after an error message; it never crashes, hangs, touches freed memory, closes a descriptor it does not own, or delivers wrong data; and when it carries on, nothing of the affected connection stays allocated, open or counted.",
  ["fault_sequences","schedules"],
  "Every single failing allocation or system call (and random pairs), at every occurrence during start-up, connection set-up, transfer and teardown.",
  "The error paths run only when a call fails; the test suite never makes one fail.",
  ["spiped/main.c","spipe/main.c","spiped/dispatch.c","lib/proto/proto_conn.c","libcperciva/network/network_connect.c","libcperciva/events/events_network.c","lib/dnsthread/dnsthread.c"],
  [("error unwinding","goto-err ladders of every function"),("ownership of sockets and cookies","lib/proto/proto_conn.c, libcperciva/network/network_connect.c")],
  observe="exit status, heap checker, descriptor table")
p("P17","Buffering is bounded and back-pressure reaches the sender",
  "When a receiver stops reading, the daemons buffer only a small bounded amount per connection and stop reading from the sender, in either direction, without affecting the opposite direction; when the receiver resumes, the flow resumes and nothing has been lost.",
  ["schedules","inputs"],
  "All stall points and durations, data sizes and buffer sizes, both directions at once.",
  "Tests never stall a receiver for long while sending more than the socket buffers hold.",
  PIPE,[("write completes before next read","lib/proto/proto_pipe.c: callback_pipe_read, callback_pipe_write"),("fixed read buffer","libcperciva/netbuf/netbuf_read.c: netbuf_read_resize_buffer")],
  observe="bytes accepted minus bytes delivered; process heap")
p("P18","An idle or blocked daemon sleeps",
  "A daemon with nothing to do - no traffic, a stalled peer, a full receiver, a half-closed connection, a full connection table, a pending lookup - blocks instead of spinning: its activity per unit of time stays bounded by its periodic timers plus the work that arrives.",
  ["schedules","histories"],
  "All quiescent states reachable through connection phases, half-closes, errors and limits.",
  "A busy loop still passes functional tests; only counting wake-ups in every quiescent state shows it.",
  ["libcperciva/events/events_network.c","libcperciva/events/events.c","libcperciva/events/events_timer.c","lib/proto/proto_pipe.c"],
  [("poll set maintenance","libcperciva/events/events_network.c: clearbit, growpollfd"),("timeout rounding","libcperciva/events/events_network.c: events_network_select")],
  observe="system calls per simulated second")
p("P19","Daemon start-up reports success only when it is really up",
  "When started as a daemon, the launching command returns success only after a background process exists that has detached, has recorded its own process id in the pid file, and (unless waiting for DNS) is already listening; any failure or kill before that point makes the launching command return failure instead of success or hanging. The pid file is the one named relative to where the command was started, and neither it nor a Unix-domain listening socket can be written by users whom the file mode mask keeps out.",
  ["crash_points","fault_sequences","schedules"],
  "All interleavings of launcher and background process, kills of the background process at any step, and failures of any call involved (fork, session, pid file creation/write/close, pipe).",
  "Tests start daemons successfully; kills and failures between fork and ready are never injected.",
  ["libcperciva/util/daemonize.c","libcperciva/util/ipc_sync.c","spiped/main.c"],
  [("ready pipe","libcperciva/util/ipc_sync.c: ipc_sync_wait, ipc_sync_signal"),("order pid file then signal","libcperciva/util/daemonize.c: daemonize")],
  observe="launcher exit status, file system, process table")
p("P20","The shared secret is the whole key file or nothing",
  "The secret used is determined by the complete contents of the key file or key stream, however the reads are fragmented or interrupted; if it cannot be opened or read to the end the program refuses to start, so it never listens, connects or talks with a partial or empty key.",
  ["fault_sequences","inputs","schedules"],
  "All key lengths (including empty, around buffer sizes, large), all short-read patterns, read errors at any offset, from a file or from standard input.",
  "Key-reading errors and short reads from pipes are not injected by tests.",
  ["lib/proto/proto_crypt.c","spiped/main.c","spipe/main.c"],
  [("key hashing loop","lib/proto/proto_crypt.c: proto_crypt_secret")],
  observe="interoperation with a reference peer holding the full key; listening sockets")
p("P21","Requested privilege drop always happens before serving",
  "If started with a user and/or group to switch to, a daemon accepts connections only after the switch is fully done - group (and supplementary groups, as far as permitted) before user, nothing privileged remaining - and if any step of the switch fails it exits with failure, cleanly, without ever serving. Everything that may need the starting user's rights - reading the key, creating the socket and binding its port, writing the pid file - works as without the option.",
  ["fault_sequences","inputs"],
  "All user/group forms (names, numbers, missing), all failing steps and error codes.",
  "Tests cannot make individual identity calls fail and mostly run unprivileged.",
  ["libcperciva/util/setuidgid.c","spiped/main.c"],
  [("switch order","libcperciva/util/setuidgid.c: setuidgid"),("failure exit","spiped/main.c: err7")],
  observe="credentials at each accept, exit status")
p("P22","The event loop runs each event once, on time, in priority order",
  "Every registered timer fires exactly once, never before its time and promptly when the loop is idle, unless cancelled, and expired timers fire in deadline order; every network registration fires at most once and only when its descriptor and direction are ready, and never after cancellation; immediate events run first, in priority order, then ready descriptors, then expired timers; the loop never sleeps while an event is due; a failing callback or an interrupt request stops the loop after the current event, with that status or zero. This holds for every sequence of registrations, cancellations and resets made from inside callbacks.",
  ["programs","schedules","histories"],
  "All sequences of register/cancel/reset operations issued from callbacks, with arbitrary readiness patterns, interrupted waits, wall-clock jumps and many simultaneous events.",
  "The event tests run a handful of fixed scripts in real time.",
  ["libcperciva/events/events.c","libcperciva/events/events_immediate.c","libcperciva/events/events_network.c","libcperciva/events/events_timer.c","libcperciva/datastruct/timerqueue.c","libcperciva/datastruct/ptrheap.c"],
  [("dispatch order","libcperciva/events/events.c: events_run_internal"),("poll array bookkeeping","libcperciva/events/events_network.c"),("heap of timers","libcperciva/datastruct/ptrheap.c")],
  observe="public event-loop interface driven by a generated program, against a model")
p("P23","Asynchronous I/O operations honour their completion contract",
  "Each asynchronous read, write, buffered read, accept or connect invokes its callback exactly once with a result within its contract - at least the minimum requested and at most the maximum on success, end-of-file or error as such, data exactly as transferred - and not at all once cancelled, after which the descriptor can be reused at once; for every fragmentation, interruption, spurious readiness and error.",
  ["programs","schedules","fault_sequences"],
  "All sequences of operations and cancellations on several descriptors with all short transfers, EAGAIN/EINTR patterns, resets and end-of-file positions.",
  "These functions have no unit tests with injected short transfers, spurious readiness or cancellation races.",
  ["libcperciva/network/network_read.c","libcperciva/network/network_write.c","libcperciva/network/network_accept.c","libcperciva/network/network_connect.c","libcperciva/netbuf/netbuf_read.c"],
  [("retry and minimum handling","libcperciva/network/network_read.c, network_write.c: callback_buf"),("buffer window","libcperciva/netbuf/netbuf_read.c")],
  observe="public interface driven by a generated program, against a model")
p("P24","Background threads start, answer and stop without races",
  "Creating a thread in blocking mode returns success only once the new thread has started, whose routine then runs exactly once with the given argument, and failure only if its routine never runs; the resolver thread answers each accepted request exactly once with that request's own result, refuses overlapping requests, and can be stopped at any time without deadlock, use of freed state, or a late answer to a stopped requester.",
  ["schedules","fault_sequences"],
  "All interleavings of the threads at every lock, signal, wait and I/O operation, with spurious wake-ups and failing thread primitives.",
  "Thread tests see only the kernel's favourite schedule.",
  ["lib/util/pthread_create_blocking_np.c","lib/dnsthread/dnsthread.c"],
  [("start hand-shake","lib/util/pthread_create_blocking_np.c: wrapped_thread"),("state machine under mutex","lib/dnsthread/dnsthread.c: workthread, dnsthread_kill")],
  observe="public interface driven by a generated program; deadlock detection and heap checks")
p("P25","The command line decides the configuration",
  "Every command line either is refused before the program touches the network, a key file or another process - with a message and exit status 1, for an unknown, repeated or conflicting option, a missing option, argument or address, a stray argument or anything but a number in range where a number is due - or is served exactly as configured: role, addresses, key, perfect-forward-secrecy rules, limits, timeouts, re-resolution, keep-alives, credentials, foreground or background, pid file and log destination; -v prints the version and exits 0.",
  ["inputs","histories"],
  "All argument vectors (order, packing, attached arguments, repetition, invalid values) combined with the behaviour of peers, names and files at run time.",
  "The tests start the programs with a handful of fixed command lines and never check what is refused or that an option took effect.",
  ["spiped/main.c","spipe/main.c","libcperciva/util/getopt.c","libcperciva/util/parsenum.h","spiped/dispatch.c"],
  [("option loop and sanity checks","spiped/main.c: main"),("option loop and sanity checks","spipe/main.c: main"),("option parser","libcperciva/util/getopt.c: getopt")],
  observe="exit status, messages and calls of the simulated process; listeners, connections, socket options, credentials, timing and look-ups while it serves")
p("P26","A daemon that ended can be started again at once",
  "However a daemon listening on a network address ends - killed at any moment, even while starting, or by SIGTERM or SIGINT, with connections in any state - the same command line starts it again immediately: within a second it listens on the same address, its pid file holds the new process id, and it serves new connections completely, with the key its key file holds at that moment; every connection it was carrying ends for both applications, and the daemon at the other end of the tunnel stays up and keeps nothing of them.",
  ["crash points","histories","schedules"],
  "All crash points and shutdown sequences of either daemon with connections in every phase, repeated restarts, and key rotations in between.",
  "The tests never kill a daemon that has connections and never start one again on an address with live, half-closed or just closed connections.",
  ["libcperciva/util/sock.c","libcperciva/util/daemonize.c","spiped/main.c","spiped/dispatch.c","lib/proto/proto_conn.c"],
  [("listening socket","libcperciva/util/sock.c: sock_listener"),("pid file","libcperciva/util/daemonize.c: writepid"),("start-up order","spiped/main.c: main")],
  observe="listening sockets, pid file, processes and their exit status, and the streams seen by the applications, across restarts")
p("N01","Secret-dependent timing does not leak",
  "The time taken to verify authenticators and to compute with private exponents does not depend on secret values, so that an observer cannot learn keys from response times.",
  ["inputs"],"All keys, messages and measurements of real execution time.",
  "Needs measurement of real hardware time or constant-time analysis.",
  ["libcperciva/crypto/crypto_verify_bytes.c","libcperciva/crypto/crypto_dh.c"],
  [("constant-time comparison","libcperciva/crypto/crypto_verify_bytes.c"),("blinded exponentiation","libcperciva/crypto/crypto_dh.c: blinded_modexp")])
p("N02","Every address and number string is converted exactly as documented",
  "The conversion of a single string to a socket address or number is exact for every input string, including those no deployment would use.",
  ["inputs"],"All strings.",
  "Tests enumerate a small table of strings.",
  ["libcperciva/util/sock.c","libcperciva/util/sock_util.c","libcperciva/util/parsenum.h","libcperciva/util/getopt.c"],
  [("address parsing","libcperciva/util/sock.c: sock_resolve"),("number parsing","libcperciva/util/parsenum.h")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
