/*
 * A program which does what the simulator tells it to do with the public interfaces of the
 * event loop, the asynchronous I/O functions, the resolver thread and the thread start-up
 * function.  All decisions and all checks are made on the other side (props7.cpp).
 */
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#include "dnsthread.h"
#include "events.h"
#include "netbuf.h"
#include "network.h"
#include "pthread_create_blocking_np.h"
#include "sock.h"
#include "sock_util.h"

#include "drv.h"

#define N 256
static void *T[N], *I[N], *R[N], *W[N], *A[N], *C[N];
static struct netbuf_read *B[N];
static uint8_t *RB[N], *WB[N];
static struct sock_addr **SA[N];
static DNSTHREAD D[N];
static pthread_t TH[N];
static int doneflag;

static int body(void);

static int cb_timer(void *c) { drvhost_fire(F_TIMER, (long)c, 0, NULL); return (body()); }
static int cb_imm(void *c) { drvhost_fire(F_IMM, (long)c, 0, NULL); return (body()); }
static int cb_net(void *c) { drvhost_fire(F_NET, (long)c, 0, NULL); return (body()); }
/* Buffers are freed as soon as the operation is over: a late access is then a use after free. */
static int cb_read(void *c, ssize_t n) { long i = (long)c; R[i] = NULL; drvhost_fire(F_READ, i, (long)n, RB[i]); free(RB[i]); RB[i] = NULL; return (body()); }
static int cb_write(void *c, ssize_t n) { long i = (long)c; W[i] = NULL; drvhost_fire(F_WRITE, i, (long)n, WB[i]); free(WB[i]); WB[i] = NULL; return (body()); }
static int cb_accept(void *c, int s) { long i = (long)c; A[i] = NULL; drvhost_fire(F_ACCEPT, i, s, NULL); return (body()); }
static int cb_connect(void *c, int s) { long i = (long)c; C[i] = NULL; drvhost_fire(F_CONNECT, i, s, NULL); return (body()); }
static int cb_netbuf(void *c, int st) { drvhost_fire(F_NETBUF, (long)c, st, NULL); return (body()); }
static int
cb_dns(void *c, struct sock_addr **sas)
{
	char buf[1024], *p;
	int e = errno;
	long n = -1;

	buf[0] = '\0';
	if (sas != NULL)
		for (n = 0; sas[n] != NULL; n++) {
			p = sock_addr_prettyprint(sas[n]);
			snprintf(buf + strlen(buf), sizeof(buf) - strlen(buf), "%s ", p != NULL ? p : "?");
			free(p);
		}
	errno = e;
	drvhost_fire(F_DNS, (long)c, n, buf);
	if (sas != NULL)
		sock_addr_freelist(sas);
	return (body());
}
static void *
routine(void *c)
{

	drvhost_fire(F_THREAD, (long)c & 0xffff, (long)c, NULL);
	body();
	return ((void *)((long)c ^ 0x5a5a));
}
static void onsig(int s) { drvhost_fire(F_SIGNAL, s, 0, NULL); events_interrupt(); }

static void
nap(long us)
{
	struct timespec ts;

	ts.tv_sec = us / 1000000;
	ts.tv_nsec = (us % 1000000) * 1000;
	nanosleep(&ts, NULL);
}

static int
body(void)
{
	struct drvop o;
	struct timeval tv;
	uint8_t *p;
	void *v;
	size_t l;
	long rc;
	int fd[2];

	for (;;) {
		memset(&o, 0, sizeof(o));
		if (drvhost_next(&o))
			return ((int)o.a);
		errno = 0;
		rc = 0;
		tv.tv_sec = o.b / 1000000;
		tv.tv_usec = o.b % 1000000;
		switch (o.k) {
		case K_RUN: rc = events_run(); break;
		case K_SPIN: doneflag = 0; rc = events_spin(&doneflag); break;
		case K_DONE: doneflag = 1; break;
		case K_INTR: events_interrupt(); break;
		case K_SLEEP: nap(o.a); break;
		case K_SIGNAL: signal((int)o.a, onsig); break;
		case K_TREG: rc = (T[o.a] = events_timer_register(cb_timer, (void *)o.a, &tv)) != NULL ? 0 : -1; break;
		case K_TREGD: rc = (T[o.a] = events_timer_register_double(cb_timer, (void *)o.a, o.f)) != NULL ? 0 : -1; break;
		case K_TCAN: events_timer_cancel(T[o.a]); T[o.a] = NULL; break;
		case K_TRESET: rc = events_timer_reset(T[o.a]); break;
		case K_IREG: rc = (I[o.a] = events_immediate_register(cb_imm, (void *)o.a, (int)o.b)) != NULL ? 0 : -1; break;
		case K_ICAN: events_immediate_cancel(I[o.a]); I[o.a] = NULL; break;
		case K_NREG: rc = events_network_register(cb_net, (void *)o.c, (int)o.a, (int)o.b); break;
		case K_NCAN: rc = events_network_cancel((int)o.a, (int)o.b); break;
		case K_PAIR:
			if ((rc = socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) == 0) {
				fcntl(fd[0], F_SETFL, O_NONBLOCK);
				fcntl(fd[1], F_SETFL, O_NONBLOCK);
				o.b = fd[0];
				o.c = fd[1];
			}
			break;
		case K_CLOSE: rc = close((int)o.a); break;
		case K_RECV:
			if ((p = malloc((size_t)o.b)) != NULL) {
				rc = recv((int)o.a, p, (size_t)o.b, 0);
				free(p);
			}
			break;
		case K_SEND:
			if ((p = calloc(1, (size_t)o.b)) != NULL) {
				rc = send((int)o.a, p, (size_t)o.b, MSG_NOSIGNAL);
				free(p);
			}
			break;
		case K_READ:	/* slot, fd, buflen, minread */
			free(RB[o.a]);
			if ((RB[o.a] = malloc((size_t)o.c)) == NULL) { rc = -2; break; }
			memset(RB[o.a], 0xEE, (size_t)o.c);
			rc = (R[o.a] = network_read((int)o.b, RB[o.a], (size_t)o.c, (size_t)o.d, cb_read, (void *)o.a)) != NULL ? 0 : -1;
			if (rc) { int e = errno; free(RB[o.a]); RB[o.a] = NULL; errno = e; }
			break;
		case K_READCAN: network_read_cancel(R[o.a]); R[o.a] = NULL; drvhost_look(RB[o.a]); free(RB[o.a]); RB[o.a] = NULL; break;
		case K_WRITE:
			free(WB[o.a]);
			if ((WB[o.a] = malloc((size_t)o.c)) == NULL) { rc = -2; break; }
			drvhost_fill(o.a, WB[o.a], (size_t)o.c);
			rc = (W[o.a] = network_write((int)o.b, WB[o.a], (size_t)o.c, (size_t)o.d, cb_write, (void *)o.a)) != NULL ? 0 : -1;
			if (rc) { int e = errno; free(WB[o.a]); WB[o.a] = NULL; errno = e; }
			break;
		case K_WRITECAN: network_write_cancel(W[o.a]); W[o.a] = NULL; free(WB[o.a]); WB[o.a] = NULL; break;
		case K_LISTEN:
			rc = -1;
			if ((SA[o.a] = sock_resolve(o.s)) != NULL && SA[o.a][0] != NULL)
				rc = sock_listener(SA[o.a][0]);
			if (SA[o.a] != NULL)
				sock_addr_freelist(SA[o.a]);
			SA[o.a] = NULL;
			break;
		case K_ACCEPT: rc = (A[o.a] = network_accept((int)o.b, cb_accept, (void *)o.a)) != NULL ? 0 : -1; break;
		case K_ACCEPTCAN: network_accept_cancel(A[o.a]); A[o.a] = NULL; break;
		case K_SAS:
			if (SA[o.a] != NULL)
				sock_addr_freelist(SA[o.a]);
			rc = (SA[o.a] = sock_resolve(o.s)) != NULL ? 0 : -1;
			break;
		case K_SASFREE: sock_addr_freelist(SA[o.a]); SA[o.a] = NULL; break;
		case K_CONNECT:	/* slot, timeout us or -1, slot of bind address or -1 */
			if (o.c >= 0)
				rc = (C[o.a] = network_connect_bind(SA[o.a], SA[o.c][0], cb_connect, (void *)o.a)) != NULL ? 0 : -1;
			else if (o.b >= 0)
				rc = (C[o.a] = network_connect_timeo(SA[o.a], &tv, cb_connect, (void *)o.a)) != NULL ? 0 : -1;
			else
				rc = (C[o.a] = network_connect(SA[o.a], cb_connect, (void *)o.a)) != NULL ? 0 : -1;
			break;
		case K_CONNECTCAN: network_connect_cancel(C[o.a]); C[o.a] = NULL; break;
		case K_NBINIT: rc = (B[o.a] = netbuf_read_init((int)o.b)) != NULL ? 0 : -1; break;
		case K_NBWAIT: rc = netbuf_read_wait(B[o.a], (size_t)o.b, cb_netbuf, (void *)o.a); break;
		case K_NBCAN: netbuf_read_wait_cancel(B[o.a]); break;
		case K_NBPEEK: netbuf_read_peek(B[o.a], &p, &l); drvhost_data(o.a, p, l); rc = (long)l; break;
		case K_NBCONSUME: netbuf_read_consume(B[o.a], (size_t)o.b); break;
		case K_NBFREE: netbuf_read_free(B[o.a]); B[o.a] = NULL; break;
		case K_FREEBUFS:
			for (rc = 0; rc < N; rc++) {
				free(RB[rc]);
				free(WB[rc]);
				RB[rc] = WB[rc] = NULL;
			}
			rc = 0;
			break;
		case K_NONBLOCK: rc = fcntl((int)o.a, F_SETFL, O_NONBLOCK); break;
		case K_DSPAWN: rc = (D[o.a] = dnsthread_spawn()) != NULL ? 0 : -1; break;
		case K_DRESOLVE: rc = dnsthread_resolveone(D[o.a], o.s, cb_dns, (void *)o.b); break;
		case K_DKILL: rc = dnsthread_kill(D[o.a]); D[o.a] = NULL; break;
		case K_DONESHOT: rc = dnsthread_resolve(o.s, cb_dns, (void *)o.b); break;
		case K_PCB: rc = pthread_create_blocking_np(&TH[o.a], NULL, routine, (void *)o.b); break;
		case K_PJOIN: v = NULL; rc = pthread_join(TH[o.a], &v); o.b = (long)v; break;
		default: rc = -99;
		}
		drvhost_done(&o, rc, errno);
	}
}

int
drv_main(int argc, char *argv[])
{

	(void)argc;
	(void)argv;
	return (body());
}
