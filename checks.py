"""Per-property settings of the checks."""
CHECKS = {
    "P01": dict(quick=8000, thorough=400000, cases="1-5 concurrent connections through an -e and a -d daemon (or spipe), random sizes, chunking, timing and abort points, on a network with short reads/writes, EAGAIN, EINTR, latency, fragmentation, partitions, resets, process kills and restarts", must_fire=["process_killed", "network_rst", "connection_reset"]),
    "P02": dict(quick=7000, thorough=250000, cases="1-6 connections that nothing breaks (only delays, short transfers, EINTR, stalls, pauses), each side ending its stream at its own time, up to more than an hour after the other", must_fire=["syscall:shutdown:107", "syscall:shutdown:104", "network_partition", "process_paused"]),
    "P03": dict(quick=20000, thorough=600000, cases="1-4 connections, 1-3 modifications by an attacker on the encrypted link: flip, zero, insert, delete, drop, duplicate, replay, reflect, splice from another connection, swap, inject, truncate, append, at any packet and byte, either direction", must_fire=["mitm_handshake_flip", "mitm_flip", "mitm_splice", "mitm_reflect", "effective_tampering", "teardown_checked"]),
    "P04": dict(quick=40000, thorough=1000000, cases="1-4 peers that do not hold the key (wrong or slightly different key, garbage, replayed or reflected or role-swapped recordings, weak value, bad MAC, one bit of the handshake changed, handshake cut) against a decrypting daemon, an encrypting daemon or the client, next to honest connections, with slow connects, restarts between recording and replay", must_fire=["evil_peer_replay", "evil_server_replay", "evil_peer_checked", "handshake_mutation_reached"]),
    "P05": dict(quick=4500, thorough=120000, cases="sessions between the real code in each role and an independent implementation of the published protocol (or an eavesdropper holding the key), random key files, packet sizes from 1 to 1024, both forward-secrecy modes, accelerated and portable builds, and packets of forbidden length", must_fire=["forbidden_length_checked"]),
    "P06": dict(quick=7000, thorough=120000, cases="2-300 connections, restarts of either daemon, replays, failing or short randomness reads, and pairs of runs differing only in one byte of the randomness read; every nonce, public value and packet keystream on the wire is compared with every other", must_fire=["fresh_randomness_checked", "process_restart", "twin_run", "entropy_read_error", "replayed_client"]),
    "P07": dict(quick=40000, thorough=1000000, cases="every pairing of the -f / -g / default options of two real ends, and each real end against a key-holding peer that offers 1, 0, 2, p-1, p, p+1, p+2, 2^2048-1, a value that resembles 1 (last byte 1 or 0, all but one or two others zero) or a proper value", must_fire=["out_of_range_value_checked", "weak_value_vs_require_checked", "pair_refused", "value_resembling_one_checked"]),
    "P08": dict(quick=7000, thorough=120000, cases="1-6 connections whose connect, handshake (withheld, delayed or trickled byte by byte) and target connect take chosen fractions of the configured time limits, long idle periods and half-open states, wall-clock jumps", must_fire=["handshake_delayed", "connect_limit_checked", "handshake_limit_checked", "served_within_limits", "target_connect_limit_checked"]),
    "P09": dict(quick=15000, thorough=300000, cases="connection limits 1-8, the default and none, with 2-150 peers of every kind arriving around the limit (honest, silent, garbage, reset before accept, vanishing, failing targets) on either daemon; afterwards every place must be free again", must_fire=["limit_reached", "all_places_free_again", "accept_aborted"]),
    "P10": dict(quick=16000, thorough=300000, cases="1-3 honest connections next to 1-14 misbehaving peers of 19 kinds on both sides of the tunnel (garbage, silence, resets at chosen points, no reading, vanishing, truncated packets, floods, failing targets), small socket buffers", must_fire=["syscall:shutdown:32", "peer_noread", "peer_tnoread", "peer_vanish", "peer_flood"]),
    "P11": dict(quick=30000, thorough=300000, cases="SIGTERM at any moment to either or both daemons with 0-8 connections in every phase, waiting clients, a full connection table, lookups in flight, a failed target, and clients arriving later", must_fire=["drained_connections", "clean_exit_in_time", "dns_hang"]),
    "P12": dict(quick=20000, thorough=300000, cases="a target (or start-up) name whose addresses change, fail to resolve or hang, re-resolution intervals from half a second to ten minutes or off, -D start-up with names that resolve only later, connections open across the changes, wall-clock jumps, pauses", must_fire=["dns_changed", "dns_failure", "dns_hang", "destination_after_change", "lookup_on_time", "startup_failure_checked", "waited_for_dns"]),
    "P13": dict(quick=60000, thorough=1500000, cases="target names with 1-8 IPv4/IPv6 addresses that refuse, reset, are unreachable at once or later, stay silent, answer slowly or change behaviour, bind addresses of either family (with and without port, failing), local failures of socket/bind/fcntl/connect, in both daemons and the client", must_fire=["connect_fails_at_once", "connect_fails_later", "attempt_order_checked", "fell_back", "bound_source_checked", "all_addresses_failed", "connect_netunreach_immediate", "bind_family_mismatch"]),
    "P14": dict(quick=50000, thorough=800000, cases="the command-line client under 21 kinds of ending: normal, refused, unanswered, wrong key, silent or garbage server, tampering, resets, killed server, vanished target, SIGTERM (also with a reset while it is handled), failing standard input, closed standard output, missing key file or name", must_fire=["success_checked", "failure_checked_tamper", "failure_checked_rst", "failure_checked_wrongkey", "sigterm_checked", "reset_during_shutdown", "client_mode_stdinerr"]),
    "P15": dict(quick=5000, thorough=100000, cases="batches of 10-60 connections of a mixed population (honest, failing, silent, garbage, reset, vanishing, tampered, refused) repeated 3-6 times: memory, descriptors, big numbers and event records held by the daemons must return to the level of the first batch, and nothing may be left when they exit", must_fire=["exit_checked"]),
    "P16": dict(quick=60000, thorough=400000, cases="one to three failing resource calls (45 kinds of system or library call, memory allocation, big-number allocation, randomness) at any occurrence, with any documented error, once or repeatedly, in a daemon or the client, during start-up, service and shutdown", must_fire=["connect_slow", "served_afterwards", "exit_checked"]),
    "P17": dict(quick=1000, thorough=20000, cases="1-4 connections moving more data than the whole path can hold while the client, the target or both do not read for 20-60 s; then reading resumes", must_fire=["client_throttled", "target_throttled", "other_direction_progressed", "both_directions_stalled", "resumed_and_completed"]),
    "P18": dict(quick=20000, thorough=300000, cases="1-6 connections parked in 22 states in which nothing can happen (idle, half closed, stalled readers, withheld handshakes, vanished peers, pending connects, full table, failing lookups, draining) for 10-200 s, and start-ups waiting for a name", must_fire=["quiet_window", "waiting_for_names", "state_idle", "state_vanish", "state_stall_both", "state_spipe_eof"]),
    "P19": dict(quick=100000, thorough=2000000, cases="starting either daemon in the background (fork) with every form of pid file, stale pid files, names that resolve late (-D), occupied addresses, while the launcher or the new daemon is killed or paused at any of its system calls or one of 17 calls fails; then service and SIGTERM", must_fire=["daemon_killed_starting", "launcher_killed", "process_paused", "success_checked", "failure_checked", "death_of_daemon_reported", "served_after_start", "file_modes_checked"]),
    "P20": dict(quick=50000, thorough=1500000, cases="key files and key streams of 0-100000 bytes read in arbitrary fragments, with interruptions, read errors at any offset, missing files and late writers, for both daemons and the client; interoperation with a peer holding the full key", must_fire=["file_read_error", "short_file_read", "key_file_missing", "right_key", "refused_to_start", "part_of_key_refused"]),
    "P21": dict(quick=100000, thorough=2000000, cases="31 forms of user and group (names, numbers, missing, malformed), started as root or not, with supplementary groups, in foreground or background, with every identity call failing; credentials are examined at every accept", must_fire=["credentials_checked", "failed_switch_checked", "served_after_switch", "groups_left_with_warning"]),
    "P22": dict(quick=150000, thorough=8000000, cases="generated programs of 3-120 operations on the public event-loop interface (timers from 0 to 30 days, resets, cancellations, immediate events of all priorities, up to 48 descriptors, interrupts, failing callbacks), most of them issued from inside callbacks, among them programs which use and re-register a descriptor from its own callback in both directions, with failing allocations, interrupted waits, signals, wall-clock jumps and peers acting at any moment", must_fire=["wall_clock_jump", "signal_delivered", "allocation_failed", "duplicate_refused", "failure_status_checked", "timer_reset", "timer_cancelled", "network_cancelled", "immediate_cancelled", "interrupted_by_signal"]),
    "P23": dict(quick=100000, thorough=4000000, cases="generated programs of 20-500 operations on asynchronous reads, writes, buffered reads, accepts and connects (with and without time limit and bind address) over up to a hundred local and network descriptors, issued from callbacks or between loop runs, with cancellation, immediate reuse, duplicates and closes; short transfers, EAGAIN, EINTR, resets, failing calls and allocations; addresses that refuse, are silent, slow, unreachable; peers acting at any moment", must_fire=["connect_fails_at_once", "connect_fails_later", "peer_rst", "hard_fault", "allocation_failed", "accepted", "connected", "connect_failed", "connect_cancelled", "accept_cancelled", "read_cancelled", "write_cancelled", "wait_cancelled", "cancelled_and_reused", "wait_eof", "read_eof", "duplicate_refused", "bound_source_checked", "written_data_checked"]),
    "P24": dict(quick=300000, thorough=4000000, cases="generated programs of 5-200 operations on up to three resolver threads (start, request, overlapping request, stop while idle / while resolving / with the answer undelivered), one-shot requests, threads started with the blocking-start function and joined; names that resolve to 0-4 addresses or fail, immediately or after up to 0.4 s; spurious wake-ups of condition variables, EINTR, random preemption at every synchronisation call, failing allocations and thread/mutex/condition/socketpair creation", must_fire=["killed_with_request_pending", "killed_idle", "overlap_refused", "answer_delivered", "resolution_failure_delivered", "joined", "thread_start_failed", "spurious_cond_wakeup", "failed_resource", "nothing_left_behind"]),
    "P25": dict(quick=100000, thorough=1500000, cases="command lines of both programs: every subset of the options in random order, packed, with attached or separate arguments; then repeated, conflicting, unknown and missing options, missing and stray arguments, --, -v, invalid numbers and addresses; against a reference reading of the command line. Usable ones are started (foreground, background, names that resolve late, missing key, unknown user) and serve 1-4 connections of peers that obey or break the forward-secrecy rules or hold another key; addresses, source address, limit, timeout, re-resolution interval, keep-alives, credentials, pid file and log destination are checked in force", must_fire=["background", "bound_source", "credentials", "interval_in_force", "no_lookups_in_force", "keepalive_off", "keepalive_on", "key_from_stdin", "limit_in_force", "no_dns", "no_key_file", "no_such_user", "unusable_address", "refused: bad number", "refused: stray argument", "refused: repeated option", "refused: unknown option", "refused: bad address", "refused_peer_1", "refused_peer_2", "served_d", "served_e", "served_spipe", "timeout_in_force", "to_syslog", "version_checked"]),
    "P26": dict(quick=12000, thorough=400000, cases="1-4 rounds in which one daemon or both, in the foreground or background, with 0-4 connections (and silent or garbage peers) in every phase, are killed outright, killed at a chosen system call, ended by SIGTERM with or without being killed while draining or stopped, or by SIGINT, and started again with the same command line after 0-5 s, sometimes killed again at a call while starting, sometimes with a replaced key file; TCP addresses of both families, privileged ports with -u", must_fire=["process_killed", "killed_at_a_call", "process_restart", "key_rotated", "up_again", "served_after_restart", "rotation_complete"]),
}
