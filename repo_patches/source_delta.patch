From 6c15cadfde7896e189d4b7f7531c71a55ef0ed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:01 +0000
Subject: [PATCH 01/14] fix: do not let a slow reader stall the event loop

proto_conn_create() was handed blocking sockets (accepted connections on
platforms where accept(2) does not inherit O_NONBLOCK, and spipe's socket
pair).  Since up to 8 packets are passed to send(2) as soon as the socket
is ready for writing, a peer which stops reading could make send(2) block
when the send buffer was writable but had less space than that, and thereby
stop every other connection handled by the process.
---
 lib/proto/proto_conn.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/proto/proto_conn.c b/lib/proto/proto_conn.c
index 9c48705..d643cd0 100644
--- a/lib/proto/proto_conn.c
+++ b/lib/proto/proto_conn.c
@@ -4,6 +4,7 @@
 #include <netinet/tcp.h>
 
 #include <assert.h>
+#include <fcntl.h>
 #include <stdlib.h>
 #include <unistd.h>
 
@@ -239,6 +240,16 @@ proto_conn_create(int s, struct sock_addr ** sas,
 	C->pipe_f = C->pipe_r = NULL;
 	C->stat_f = C->stat_r = 1;
 
+	/*
+	 * Make sure that the socket is non-blocking: We write as much data as
+	 * we have whenever the socket is ready for writing, and this must not
+	 * stall the event loop if less than that fits into the send buffer.
+	 */
+	if (fcntl(C->s, F_SETFL, O_NONBLOCK) == -1) {
+		warnp("Cannot make connection non-blocking");
+		goto err1;
+	}
+
 	/* Start the connect timer. */
 	if ((C->connect_timeout_cookie = events_timer_register_double(
 	    callback_connect_timeout, C, C->timeo)) == NULL)
-- 
2.43.0


From 9bf715bd91ee21cb018770a77263071a676370ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:00 +0000
Subject: [PATCH 02/14] fix: accept a numeric bind address without a port

sock_addr_ensure_port appends ":0" to an address without a port number, but
sock_resolve refused port 0 after an [IP address]; so -b '[192.0.2.1]', whose
port the manual says may be left to the operating system, made spiped and
spipe refuse to start.
---
 libcperciva/util/sock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcperciva/util/sock.c b/libcperciva/util/sock.c
index f86aea2..5b24c2c 100644
--- a/libcperciva/util/sock.c
+++ b/libcperciva/util/sock.c
@@ -280,7 +280,7 @@ sock_resolve(const char * addr)
 	ips[strlen(ips) - 1] = '\0';
 
 	/* Parse the port number in base 10, no trailing characters. */
-	if (PARSENUM_EX(&p, ports, 1, 65535, 10, 0)) {
+	if (PARSENUM_EX(&p, ports, 0, 65535, 10, 0)) {
 		warn0("Invalid port number: %s", ports);
 		goto err1;
 	}
-- 
2.43.0


From ca458e4f075e16d9758fff53eb604ecfc3c7449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 03/14] fix: spipe: do not cancel and join the threads twice

If the connection died in the same run of the event loop in which a SIGTERM
was handled, callback_conndied() called callback_graceful_shutdown() again,
which cancelled and joined threads which had already been joined.
---
 spipe/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spipe/main.c b/spipe/main.c
index ba21659..ce99be4 100644
--- a/spipe/main.c
+++ b/spipe/main.c
@@ -70,6 +70,10 @@ callback_graceful_shutdown(void * cookie)
 	int rc;
 	int i;
 
+	/* Don't touch the threads again if we've already joined them. */
+	if (ET->stopped)
+		return (0);
+
 	/* Cancel the threads. */
 	for (i = 0; i < 2; i++) {
 		if ((rc = pthread_cancel(ET->threads[i])) != 0) {
-- 
2.43.0


From 53d3e2b1244fcbee59cf5a31668302bf693e7a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 04/14] fix: spipe: do not drop a dead connection again

When the event loop failed because of an error which also killed the
connection (e.g. a failure to read entropy at the start of the handshake),
main() passed the freed connection cookie to proto_conn_drop().
---
 spipe/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spipe/main.c b/spipe/main.c
index ce99be4..7ca890a 100644
--- a/spipe/main.c
+++ b/spipe/main.c
@@ -303,6 +303,10 @@ main(int argc, char * argv[])
 	/* Loop until we're done with the connection. */
 	if (events_spin(&ET.conndone)) {
 		warnp("Error running event loop");
+
+		/* If the connection died, proto_conn has freed it already. */
+		if (ET.conndone)
+			goto err4;
 		goto err5;
 	}
 
-- 
2.43.0


From 0115911fd38b93909207b5eb267368435fbec82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 05/14] fix: spiped: do not shut down a dispatcher which was
 not started

---
 spiped/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spiped/main.c b/spiped/main.c
index 60110b2..80b3f10 100644
--- a/spiped/main.c
+++ b/spiped/main.c
@@ -391,7 +391,8 @@ main(int argc, char * argv[])
 	exit(0);
 
 err7:
-	dispatch_shutdown(dispatch_cookie);
+	if (dispatch_cookie != NULL)
+		dispatch_shutdown(dispatch_cookie);
 err6:
 	if ((s != -1) && close(s))
 		warnp("close");
-- 
2.43.0


From e2a2d1bbaf8e5a6752f5329666e883ffe0584487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 06/14] fix: network_connect: report a fatal error instead of
 freeing the cookie

If a later connection attempt failed for lack of resources, the cookie was
freed while the caller still held it, and cancelling it accessed freed
memory.  Invoke the callback with -1, as documented.
---
 libcperciva/network/network_connect.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/libcperciva/network/network_connect.c b/libcperciva/network/network_connect.c
index 940e7a9..ee4f5d5 100644
--- a/libcperciva/network/network_connect.c
+++ b/libcperciva/network/network_connect.c
@@ -59,7 +59,15 @@ dofailed(struct connect_cookie * C)
 	C->sas++;
 
 	/* Try other addresses until we run out of options. */
-	return (tryconnect(C));
+	if (tryconnect(C))
+		goto err0;
+
+	/* Success! */
+	return (0);
+
+err0:
+	/* Fatal error; tell the upstream, which still holds our cookie. */
+	return (docallback(C));
 }
 
 /* Callback when connect(2) succeeds or fails. */
@@ -92,10 +100,10 @@ callback_connect(void * cookie)
 err1:
 	if (close(C->s))
 		warnp("close");
-	free(C);
+	C->s = -1;
 
-	/* Fatal error! */
-	return (-1);
+	/* Fatal error; tell the upstream, which still holds our cookie. */
+	return (docallback(C));
 }
 
 /* Callback when a timer expires. */
@@ -114,7 +122,7 @@ callback_timeo(void * cookie)
 	return (dofailed(C));
 }
 
-/* Try to launch a connection.  Free the cookie on fatal errors. */
+/* Try to launch a connection.  Have no socket open on fatal errors. */
 static int
 tryconnect(struct connect_cookie * C)
 {
@@ -162,7 +170,7 @@ err2:
 err1:
 	if ((C->s != -1) && close(C->s))
 		warnp("close");
-	free(C);
+	C->s = -1;
 
 	/* Fatal error. */
 	return (-1);
@@ -209,11 +217,13 @@ network_connect_internal(struct sock_addr * const * sas,
 
 	/* Try to connect to the first address. */
 	if (tryconnect(C))
-		goto err0;
+		goto err1;
 
 	/* Success! */
 	return (C);
 
+err1:
+	free(C);
 err0:
 	/* Failure! */
 	return (NULL);
-- 
2.43.0


From b12c577df2fbaef814e2589ed911ba8bc50e1cad Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:15:38 +0000
Subject: [PATCH 07/14] fix: dnsthread: refuse a request until the previous
 callback is invoked

A request made after the worker thread finished the previous one but before
its callback ran was accepted: the previous request's callback, address and
result were lost, and registering the wakeup listener again failed.
---
 lib/dnsthread/dnsthread.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/lib/dnsthread/dnsthread.c b/lib/dnsthread/dnsthread.c
index 1733b6f..b595ee9 100644
--- a/lib/dnsthread/dnsthread.c
+++ b/lib/dnsthread/dnsthread.c
@@ -29,6 +29,7 @@ struct dnsthread_internal {
 	char * addr;		/* Address to be resolved. */
 	struct sock_addr ** sas;	/* Results. */
 	int res_errno;		/* Errno to be passed back on failure. */
+	int pending;		/* Nonzero until the callback is invoked. */
 
 	/* Callback to occur when resolution is complete. */
 	int (* callback)(void *, struct sock_addr **);	/* Callback. */
@@ -194,6 +195,7 @@ dnsthread_spawn(void)
 
 	/* The thread starts out sleeping. */
 	T->state = THREAD_SLEEPING;
+	T->pending = 0;
 
 	/* Create the thread. */
 	if ((rc = pthread_create(&T->thr, NULL, workthread, T)) != 0) {
@@ -251,8 +253,8 @@ dnsthread_resolveone(DNSTHREAD T, const char * addr,
 		goto err0;
 	}
 
-	/* If the resolver is already busy, fail. */
-	if (T->state == THREAD_HASWORK) {
+	/* If a request is pending (or waiting for its callback), fail. */
+	if (T->pending) {
 		err = EALREADY;
 		goto ealready;
 	}
@@ -261,12 +263,20 @@ dnsthread_resolveone(DNSTHREAD T, const char * addr,
 	if ((T->addr = strdup(addr)) == NULL)
 		goto err1;
 
+	/* We want a callback when the worker thread pokes us. */
+	if (events_network_register(callback_resolveone, T, T->wakeupsock[1],
+	    EVENTS_NETWORK_OP_READ)) {
+		warnp("Error registering wakeup listener");
+		goto err2;
+	}
+
 	/* Remember what callback we'll need to do eventually. */
 	T->callback = callback;
 	T->cookie = cookie;
 
 	/* There is now work for the thread to do. */
 	T->state = THREAD_HASWORK;
+	T->pending = 1;
 
 	/* Wake up the worker thread. */
 	if ((rc = pthread_cond_signal(&T->cv)) != 0) {
@@ -274,13 +284,6 @@ dnsthread_resolveone(DNSTHREAD T, const char * addr,
 		goto err1;
 	}
 
-	/* We want a callback when the worker thread pokes us. */
-	if (events_network_register(callback_resolveone, T, T->wakeupsock[1],
-	    EVENTS_NETWORK_OP_READ)) {
-		warnp("Error registering wakeup listener");
-		goto err1;
-	}
-
 ealready:
 	/* Release the mutex. */
 	if ((rc = pthread_mutex_unlock(&T->mtx)) != 0) {
@@ -295,6 +298,8 @@ ealready:
 	/* Success! */
 	return (0);
 
+err2:
+	free(T->addr);
 err1:
 	pthread_mutex_unlock(&T->mtx);
 err0:
@@ -337,6 +342,9 @@ callback_resolveone(void * cookie)
 	callback = T->callback;
 	cb_cookie = T->cookie;
 
+	/* We can accept another request now. */
+	T->pending = 0;
+
 	/* Release the mutex. */
 	if ((rc = pthread_mutex_unlock(&T->mtx)) != 0) {
 		warn0("pthread_mutex_unlock: %s", strerror(rc));
-- 
2.43.0


From 5d3df3202ed27d9e1524647bdd0473c45f8f7f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 08/14] fix: dnsthread: clean up when killing a thread with a
 request pending

If dnsthread_kill() was called while a request was being resolved, or after
it was resolved but before the callback was invoked, the wakeup socket was
closed with its listener still registered, and the address, the result and
the thread itself were leaked.
---
 lib/dnsthread/dnsthread.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/lib/dnsthread/dnsthread.c b/lib/dnsthread/dnsthread.c
index b595ee9..cafd197 100644
--- a/lib/dnsthread/dnsthread.c
+++ b/lib/dnsthread/dnsthread.c
@@ -149,6 +149,10 @@ workthread(void * cookie)
 		exit(1);
 	}
 
+	/* Free the address and result of a request which was abandoned. */
+	free(T->addr);
+	sock_addr_freelist(T->sas);
+
 	/* Free the control structure. */
 	free(T);
 
@@ -195,6 +199,8 @@ dnsthread_spawn(void)
 
 	/* The thread starts out sleeping. */
 	T->state = THREAD_SLEEPING;
+	T->addr = NULL;
+	T->sas = NULL;
 	T->pending = 0;
 
 	/* Create the thread. */
@@ -300,6 +306,7 @@ ealready:
 
 err2:
 	free(T->addr);
+	T->addr = NULL;
 err1:
 	pthread_mutex_unlock(&T->mtx);
 err0:
@@ -333,9 +340,11 @@ callback_resolveone(void * cookie)
 
 	/* Free the (strduped) address which was to be resolved. */
 	free(T->addr);
+	T->addr = NULL;
 
 	/* Grab the result. */
 	sas = T->sas;
+	T->sas = NULL;
 	res_errno = T->res_errno;
 
 	/* Grab the callback. */
@@ -386,6 +395,14 @@ dnsthread_kill(DNSTHREAD T)
 	/* Grab the thread ID. */
 	thr = T->thr;
 
+	/* If there is a request pending, its callback won't be invoked. */
+	if (T->pending) {
+		if (events_network_cancel(T->wakeupsock[1],
+		    EVENTS_NETWORK_OP_READ))
+			goto err1;
+		T->pending = 0;
+	}
+
 	/* Tell the thread to die, and wake it up. */
 	T->state = THREAD_SUICIDE;
 	if ((rc = pthread_cond_signal(&T->cv)) != 0) {
@@ -405,6 +422,12 @@ dnsthread_kill(DNSTHREAD T)
 			warn0("pthread_join: %s", strerror(rc));
 			goto err0;
 		}
+	} else {
+		/* Nobody will wait for this thread. */
+		if ((rc = pthread_detach(thr)) != 0) {
+			warn0("pthread_detach: %s", strerror(rc));
+			goto err0;
+		}
 	}
 
 	/* Success! */
-- 
2.43.0


From bba74954ed56e65af46e67a4c5e8355349607b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 09/14] fix: do not overflow time_t with very long timeouts

The -o and -r options accept any value up to and including infinity, but
converting such values to a time_t overflowed; "-o inf" thus made every
connection time out immediately, and "-r inf" made spiped look up the
target address in a busy loop.
---
 libcperciva/events/events_timer.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libcperciva/events/events_timer.c b/libcperciva/events/events_timer.c
index e4033bc..cfdbb5e 100644
--- a/libcperciva/events/events_timer.c
+++ b/libcperciva/events/events_timer.c
@@ -9,6 +9,13 @@
 #include "events.h"
 #include "events_internal.h"
 
+/*
+ * Longest timeout, in seconds; anything longer (including infinity) is
+ * shortened to this, so that adding it to the current time cannot overflow a
+ * time_t.
+ */
+#define TIMEO_MAX ((sizeof(time_t) > 4) ? 1e18 : 1e9)
+
 struct timerrec {
 	struct eventrec * r;
 	void * cookie;
@@ -105,6 +112,10 @@ events_timer_register_double(int (* func)(void *), void * cookie,
 {
 	struct timeval tv;
 
+	/* Don't try to represent more seconds than we can handle. */
+	if (timeo > TIMEO_MAX)
+		timeo = TIMEO_MAX;
+
 	/* Convert timeo to a struct timeval. */
 	tv.tv_sec = (time_t)timeo;
 	tv.tv_usec = (suseconds_t)((timeo - (double)tv.tv_sec) * 1000000.0);
-- 
2.43.0


From 8b5765cd7b39d90a99a65e723834b7d5585c4ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:44 +0000
Subject: [PATCH 10/14] fix: refuse negative strings when parsing unsigned
 numbers

strtoumax(3) accepts a minus sign and negates the value, so e.g. "-n -1"
was taken as a limit of SIZE_MAX connections.
---
 libcperciva/util/parsenum.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index d8406c9..1569bea 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -7,6 +7,7 @@
 #include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 /* Handle compiler warnings about implicit variable conversion in PARSENUM. */
 #ifdef __clang__
@@ -191,6 +192,10 @@ parsenum_unsigned(const char * s, uintmax_t min, uintmax_t max,
 		errno = EINVAL;
 	else if ((val < min) || (val > max) || (val > typemax))
 		errno = ERANGE;
+	else if ((val != 0) && (s[strspn(s, " \t\n\v\f\r")] == '-')) {
+		/* strtoumax(3) negates a number preceded by a minus sign. */
+		errno = ERANGE;
+	}
 	return (val);
 }
 
-- 
2.43.0


From be1f7964eea4c04735de1273f4294e4df9e14e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:44 +0000
Subject: [PATCH 11/14] fix: refuse NaN when parsing floating-point numbers

A NaN compares false with both bounds, so "-r nan" was accepted and
silently disabled re-resolution.
---
 libcperciva/util/parsenum.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index 1569bea..c69ca4d 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -152,8 +152,8 @@ parsenum_float(const char * s, double min, double max, int trailing)
 	val = strtod(s, &eptr);
 	if (eptr == s || (!trailing && (*eptr != '\0')))
 		errno = EINVAL;
-	else if ((val < min) || (val > max))
-		errno = ERANGE;
+	else if (!(val >= min) || !(val <= max))
+		errno = ERANGE;	/* Also reached if val is NaN. */
 	return (val);
 }
 
-- 
2.43.0


From 6412e1eba8e8273201783ad4bf7353a96a616414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:09 +0000
Subject: [PATCH 12/14] fix: spipe: a thread's exit must not run atexit
 handlers

The bit-pushing threads called exit(3) upon errors while the main thread
was still running the event loop; the atexit(3) handlers free the event
loop's data, so spipe could crash instead of reporting failure.
---
 spipe/pushbits.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/spipe/pushbits.c b/spipe/pushbits.c
index 78be162..d7774e1 100644
--- a/spipe/pushbits.c
+++ b/spipe/pushbits.c
@@ -32,7 +32,7 @@ workthread_cleanup(void * cookie)
 	if (shutdown(P->out, SHUT_WR)) {
 		if (errno != ENOTSOCK) {
 			warnp("Error shutting down socket");
-			exit(1);
+			_exit(1);
 		}
 	}
 
@@ -40,7 +40,11 @@ workthread_cleanup(void * cookie)
 	free(P);
 }
 
-/* Bit-pushing thread. */
+/*
+ * Bit-pushing thread.  If we hit an error, exit without running atexit(3)
+ * handlers, since they would free data structures (e.g. those belonging to
+ * the events code) which the main thread might still be using.
+ */
 static void *
 workthread(void * cookie)
 {
@@ -57,7 +61,7 @@ workthread(void * cookie)
 			if (errno == EINTR)
 				continue;
 			warnp("Error reading");
-			exit(1);
+			_exit(1);
 		}
 
 		/* If we hit EOF, exit the loop. */
@@ -68,7 +72,7 @@ workthread(void * cookie)
 		if (noeintr_write(P->out, &P->buf, (size_t)readlen)
 		    != readlen) {
 			warnp("Error writing");
-			exit(1);
+			_exit(1);
 		}
 	} while (1);
 
-- 
2.43.0


From 546e7127529c32d2be24b4c036fb92e9f55991f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:20 +0000
Subject: [PATCH 13/14] proto_crypt: guarded hook (SPIPED_SIM) for the number
 of the first packet

Off by default; with SPIPED_SIM defined, a simulator can start a session at
any packet number and thereby reach large ones without sending that many
packets.
---
 lib/proto/proto_crypt.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/proto/proto_crypt.c b/lib/proto/proto_crypt.c
index 1e1803f..7787612 100644
--- a/lib/proto/proto_crypt.c
+++ b/lib/proto/proto_crypt.c
@@ -25,6 +25,11 @@ struct proto_keys {
 	uint64_t pnum;
 };
 
+#ifdef SPIPED_SIM
+/* Number of the first packet, chosen by the simulator (normally zero). */
+extern uint64_t spiped_sim_first_pnum;
+#endif
+
 /**
  * mkkeypair(kbuf):
  * Convert the 64 bytes of ${kbuf} into a protocol key structure.
@@ -52,6 +57,10 @@ mkkeypair(uint8_t kbuf[64])
 
 	/* The first packet will be packet number zero. */
 	k->pnum = 0;
+#ifdef SPIPED_SIM
+	/* Reach large packet numbers without sending that many packets. */
+	k->pnum = spiped_sim_first_pnum;
+#endif
 
 	/* Success! */
 	return (k);
-- 
2.43.0


From df528491b986a3d78d5df1f29bed54a515c6656b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:44 +0000
Subject: [PATCH 14/14] fix: stop spipe's threads before closing their socket
 when the event loop fails

---
 spipe/main.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spipe/main.c b/spipe/main.c
index 7ca890a..901173f 100644
--- a/spipe/main.c
+++ b/spipe/main.c
@@ -152,6 +152,7 @@ main(int argc, char * argv[])
 	const char * ch;
 	int s[2];
 	void * conn_cookie;
+	int conndead;
 	int rc;
 
 	WARNP_INIT;
@@ -305,7 +306,12 @@ main(int argc, char * argv[])
 		warnp("Error running event loop");
 
 		/* If the connection died, proto_conn has freed it already. */
-		if (ET.conndone)
+		conndead = ET.conndone;
+
+		/* Stop the threads before closing the socket they use. */
+		callback_graceful_shutdown(&ET);
+
+		if (conndead)
 			goto err4;
 		goto err5;
 	}
-- 
2.43.0

