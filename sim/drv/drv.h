#ifndef DRV_H_
#define DRV_H_
#include <stddef.h>
struct drvop { int k; long a, b, c, d; double f; const char *s; };
enum { K_NONE, K_RUN, K_SPIN, K_DONE, K_INTR, K_SLEEP, K_SIGNAL, K_TREG, K_TREGD, K_TCAN, K_TRESET, K_IREG, K_ICAN, K_NREG, K_NCAN, K_PAIR, K_CLOSE, K_RECV, K_SEND,
	K_READ, K_READCAN, K_WRITE, K_WRITECAN, K_LISTEN, K_ACCEPT, K_ACCEPTCAN, K_SAS, K_SASFREE, K_CONNECT, K_CONNECTCAN, K_NBINIT, K_NBWAIT, K_NBCAN, K_NBPEEK, K_NBCONSUME, K_NBFREE, K_FREEBUFS,
	K_NONBLOCK, K_DSPAWN, K_DRESOLVE, K_DKILL, K_DONESHOT, K_PCB, K_PJOIN };
enum { F_TIMER, F_IMM, F_NET, F_READ, F_WRITE, F_ACCEPT, F_CONNECT, F_NETBUF, F_DNS, F_THREAD, F_SIGNAL };
#ifdef __cplusplus
extern "C" {
#endif
int drvhost_next(struct drvop *);			/* nonzero: leave this context with status a */
void drvhost_done(const struct drvop *, long rc, int err);
void drvhost_fire(int kind, long id, long status, void *data);
void drvhost_fill(long id, unsigned char *buf, size_t len);
void drvhost_data(long id, const unsigned char *buf, size_t len);
void drvhost_look(const unsigned char *buf);
#ifdef __cplusplus
}
#endif
#endif
