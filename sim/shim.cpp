// The C library surface seen by simulated processes. Every function sim_X here
// replaces libc's X in the node image (objcopy --redefine-syms).
#include "core.h"
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <setjmp.h>
#include <pwd.h>
#include <grp.h>
#include <netdb.h>
#include <time.h>
#include <sys/time.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <openssl/bn.h>

#define X extern "C" __attribute__((visibility("default")))
#define P (sim->cur->proc)
static inline int fail(int e) { errno = e; return -1; }
// system call prologue: returns when an error is injected
#define ENTER(name) do { if (Fault *f_ = sim_step(name)) if (f_->err > 0) { errno = f_->err; return -1; } } while (0)

static void testcancel();
// Interrupted calls without a signal to blame are only produced where POSIX and the code
// both allow for them: transfers on network sockets (never on files, the entropy device or
// the resolver's wake-up pair, whose reads cannot be interrupted once data is there).
static bool eintr_any();
static bool eintr(File *f) {
    Sock *k = f->sock(); if (!k || !k->flow || k->flow->src == "socketpair") return false;
    return eintr_any();
}
static bool eintr_any() {
    if (sim->p_eintr > 0 && sim->eintr_budget > 0 && sim->rs.chance(sim->p_eintr)) { sim->eintr_budget--; sim->fire("eintr"); return true; }
    return false;
}
static void misuse(const char *call, int fd) {
    Process *p = P; auto it = p->closed_info.find(fd);
    string m = it != p->closed_info.end() ? fmt("%s() on descriptor %d, already closed (was a %s)", call, fd, it->second.c_str()) : fmt("%s() on descriptor %d, which is not open", call, fd);
    if (p->violations.size() < 10) p->violations.push_back(m);
    sim->log("misuse %s: %s", p->name.c_str(), m.c_str());
}

// ------------------------------------------------------------------ addresses
static string sa_str(const struct sockaddr *sa, socklen_t l) {
    char b[64];
    if (sa->sa_family == AF_UNIX) { auto u = (const struct sockaddr_un *)sa; size_t m = l > offsetof(sockaddr_un, sun_path) ? l - offsetof(sockaddr_un, sun_path) : 0; return string(u->sun_path, strnlen(u->sun_path, std::min(m, sizeof u->sun_path))); }
    if (sa->sa_family == AF_INET) { auto i = (const struct sockaddr_in *)sa; inet_ntop(AF_INET, &i->sin_addr, b, sizeof b); return fmt("%s:%d", b, ntohs(i->sin_port)); }
    if (sa->sa_family == AF_INET6) { auto i = (const struct sockaddr_in6 *)sa; inet_ntop(AF_INET6, &i->sin6_addr, b, sizeof b); return fmt("[%s]:%d", b, ntohs(i->sin6_port)); }
    return "?";
}
static bool str_sa(const string &s, struct sockaddr_storage *ss, socklen_t *l) {
    memset(ss, 0, sizeof *ss);
    if (s.empty() || s[0] == '/' || s[0] == '@') { auto u = (struct sockaddr_un *)ss; u->sun_family = AF_UNIX; if (!s.empty() && s[0] == '/') strncpy(u->sun_path, s.c_str(), sizeof u->sun_path - 1); *l = s.empty() || s[0] == '@' ? sizeof(sa_family_t) : sizeof *u; return true; }
    size_t i = s.rfind(':'); if (i == string::npos) return false; int port = atoi(s.c_str() + i + 1);
    if (s[0] == '[') { auto x = (struct sockaddr_in6 *)ss; x->sin6_family = AF_INET6; x->sin6_port = htons(port); inet_pton(AF_INET6, s.substr(1, i - 2).c_str(), &x->sin6_addr); *l = sizeof *x; return true; }
    auto x = (struct sockaddr_in *)ss; x->sin_family = AF_INET; x->sin_port = htons(port); inet_pton(AF_INET, s.substr(0, i).c_str(), &x->sin_addr); *l = sizeof *x; return true;
}
static void put_sa(const string &s, struct sockaddr *sa, socklen_t *l) {
    if (!sa || !l) return; struct sockaddr_storage ss; socklen_t n;
    if (!str_sa(s, &ss, &n)) { *l = 0; return; } memcpy(sa, &ss, std::min(*l, n)); *l = n;
}

// ------------------------------------------------------------------ generic blocking I/O
static void mark_faulted(int fd) { FileP f = fd_get(fd); if (f && f->sock() && f->sock()->flow) f->sock()->flow->faulted = true; }
// Faults are planned per kind of descriptor, not per spelling of the call: the programs' network
// sockets see "recv"/"send" faults and everything else (files, pipes, socket pairs) "read"/"write"
// ones, so that reading a socket pair with recv() does not make it fail like a network connection.
static const char *io_name(const char *call, int fd, bool wr) {
    if (P->prog != "spiped" && P->prog != "spipe") return call;
    FileP f = fd_get(fd); if (!f) return call;
    Sock *k = f->sock(); return k && (!k->flow || k->flow->src != "socketpair") ? (wr ? "send" : "recv") : (wr ? "write" : "read");
}
static ssize_t io_read(const char *call, int fd, void *b, size_t n, int flags) {
    call = io_name(call, fd, false);
    if (Fault *f = sim_step(call)) if (f->err > 0) { mark_faulted(fd); errno = f->err; return -1; }
    testcancel();
    FileP fp = fd_get(fd); File *f = fp.get();
    if (!f) { misuse(call, fd); return fail(EBADF); }
    for (;;) {
        ssize_t r;
        if (eintr(f)) { errno = EINTR; return -1; }
        bool nb = f->nonblock || (flags & MSG_DONTWAIT);
        if (nb && f->sock() && sim->rs.chance(sim->p_eagain)) { sim->fire("spurious_eagain"); errno = EAGAIN; return -1; }
        if (f->sock() && (flags & MSG_PEEK)) r = f->sock()->peek_read(b, n, true); else r = f->do_read(b, n);
        if (r >= 0) { sim->mix((u64)r); if (sim->trace) sim->log("  %s.%d %s(%d,%zu)=%zd", P->name.c_str(), sim->cur->tid, call, fd, n, r); return r; }
        if (r != -EAGAIN || nb) { if (sim->trace && r != -EAGAIN) sim->log("  %s(%d) errno %zd", call, fd, -r); errno = (int)-r; return -1; }
        if (!f->sock() && eintr_any()) { sim->fire("eintr_pipe"); errno = EINTR; return -1; }        // a signal arrives before any data
        bool ok = sim_block(call, [keep = std::move(fp)] { return (keep->pollmask() & (POLLIN | POLLHUP | POLLERR)) != 0; }, -1, true);
        testcancel(); if (!ok) { errno = EINTR; return -1; }
        fp = fd_get(fd); f = fp.get(); if (!f) return fail(EBADF);
    }
}
static ssize_t io_write(const char *call, int fd, const void *b, size_t n, int flags) {
    call = io_name(call, fd, true);
    if (Fault *f = sim_step(call)) if (f->err > 0) { mark_faulted(fd); if (f->err == EPIPE && !(flags & MSG_NOSIGNAL)) sim->signal_proc(P, SIGPIPE); errno = f->err; return -1; }
    testcancel();
    FileP fp = fd_get(fd); File *f = fp.get();
    if (!f) { misuse(call, fd); return fail(EBADF); }
    size_t done = 0;
    for (;;) {
        if (eintr(f)) { if (done) return (ssize_t)done; errno = EINTR; return -1; }
        bool nb = f->nonblock || (flags & MSG_DONTWAIT);
        if (nb && f->sock() && sim->rs.chance(sim->p_eagain)) { sim->fire("spurious_eagain"); errno = EAGAIN; return -1; }
        ssize_t r = f->do_write((const u8 *)b + done, n - done, flags);
        if (r >= 0) { done += (size_t)r; sim->mix((u64)r); if (sim->trace) sim->log("  %s.%d %s(%d,%zu)=%zd", P->name.c_str(), sim->cur->tid, call, fd, n, r); if (done >= n || nb) return (ssize_t)done; if (sim->rs.chance(sim->p_short)) { sim->fire("short_blocking_write"); return (ssize_t)done; } if (!f->sock() && strcmp(f->kind(), "pipe-w")) return (ssize_t)done; continue; }
        if (r == -EPIPE) { if (done) return (ssize_t)done; if (!(flags & MSG_NOSIGNAL)) { fp.reset(); sim->signal_proc(P, SIGPIPE); run_signals(); } errno = EPIPE; return -1; }
        if (r != -EAGAIN || nb) { if (done) return (ssize_t)done; errno = (int)-r; return -1; }
        if (!f->sock() && !done && eintr_any()) { sim->fire("eintr_pipe"); errno = EINTR; return -1; }
        sim->fire("write_blocked");
        bool ok = sim_block(call, [keep = std::move(fp)] { Sock *s = keep->sock(); return s ? (s->wspace() > 0 || (s->pollmask() & (POLLHUP | POLLERR))) : (keep->pollmask() & (POLLOUT | POLLERR)) != 0; }, -1, true);
        testcancel(); if (!ok) { if (done) return (ssize_t)done; errno = EINTR; return -1; }
        fp = fd_get(fd); f = fp.get(); if (!f) return done ? (ssize_t)done : fail(EBADF);
    }
}
X ssize_t sim_read(int fd, void *b, size_t n) { return io_read("read", fd, b, n, 0); }
X ssize_t sim_write(int fd, const void *b, size_t n) { ssize_t r = io_write("write", fd, b, n, 0); sim_relax(); return r; }
X ssize_t sim_recv(int fd, void *b, size_t n, int fl) { FileP f = fd_get(fd); if (f && !f->sock()) return fail(ENOTSOCK); f.reset(); return io_read("recv", fd, b, n, fl); }
X ssize_t sim_send(int fd, const void *b, size_t n, int fl) { FileP f = fd_get(fd); if (f && !f->sock()) return fail(ENOTSOCK); f.reset(); return io_write("send", fd, b, n, fl); }
X ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) { return sim_recv(fd, b, n, fl); }
X ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *, socklen_t) { return sim_send(fd, b, n, fl); }
static ssize_t vread(const char *c, int fd, const struct iovec *v, int n, int fl) { ssize_t t = 0; for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; ssize_t r = io_read(c, fd, v[i].iov_base, v[i].iov_len, t ? fl | MSG_DONTWAIT : fl); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
static ssize_t vwrite(const char *c, int fd, const struct iovec *v, int n, int fl) { ssize_t t = 0; for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; ssize_t r = io_write(c, fd, v[i].iov_base, v[i].iov_len, t && sim->bsd ? fl | MSG_DONTWAIT : fl); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
X ssize_t sim_readv(int fd, const struct iovec *v, int n) { return vread("read", fd, v, n, 0); }
X ssize_t sim_writev(int fd, const struct iovec *v, int n) { return vwrite("write", fd, v, n, 0); }
X ssize_t sim_recvmsg(int fd, struct msghdr *m, int fl) { m->msg_flags = 0; m->msg_controllen = 0; return vread("recv", fd, m->msg_iov, (int)m->msg_iovlen, fl); }
X ssize_t sim_sendmsg(int fd, const struct msghdr *m, int fl) { return vwrite("send", fd, m->msg_iov, (int)m->msg_iovlen, fl); }

X int sim_close(int fd) {
    Fault *fl = sim_step("close"); Process *p = P;
    if (fd < 0 || (size_t)fd >= p->fds.size() || !p->fds[fd].f) { misuse("close", fd); return fail(EBADF); }
    if (fl && fl->err == EINTR && fl->mode == "keep") return fail(EINTR);
    if (sim->trace) sim->log("  %s close(%d)", p->name.c_str(), fd);
    fd_close(p, fd);
    if (fl && fl->err > 0) return fail(fl->err);
    return 0;
}
// The files of the simulated system belong to the user who starts the programs: after a switch to another user they can neither be read nor created.
static string absp(const char *n) { Process *p = P; if (n[0] == '/' || p->cwd.empty()) return n; return p->cwd == "/" ? "/" + string(n) : p->cwd + "/" + n; }
static bool denied() { Process *p = P; if (p->euid == 0 || !p->dropped) return false; sim->fire("file_denied_after_switch"); return true; }
X int sim_open(const char *path, int flags, ...) {
    mode_t mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
    ENTER("open"); Process *p = P; string s = absp(path); FileP f;
    if (s == "/dev/urandom" || s == "/dev/random") { if (sim->entropy_fail && sim->rf.chance(0.5)) { sim->fire("entropy_open_error"); return fail(ENOENT); } f = make_shared<URandom>(); }
    else if (s == "/dev/null") f = make_shared<NullFile>();
    else {
        if (denied()) return fail(EACCES);
        auto it = sim->fs.find(s); shared_ptr<Inode> ino;
        if (it == sim->fs.end()) { if (!(flags & O_CREAT)) return fail(ENOENT); ino = sim->mkfile(s, ""); ino->mode = mode & ~p->umask_; }
        else { if ((flags & O_CREAT) && (flags & O_EXCL)) return fail(EEXIST); ino = it->second; if (ino->is_socket) return fail(ENXIO); if (flags & O_TRUNC) ino->data.clear(); }
        auto r = make_shared<RegFile>(); r->ino = ino; r->wr = (flags & O_ACCMODE) != O_RDONLY; r->append = flags & O_APPEND; f = r;
    }
    f->oflags = flags; f->nonblock = flags & O_NONBLOCK;
    int fd = fd_alloc(p, f); if (fd < 0) return fail(-fd);
    p->fds[fd].cloexec = flags & O_CLOEXEC; return fd;
}
X int sim_open64(const char *path, int flags, int mode) { return sim_open(path, flags, mode); }
X int sim_openat(int, const char *path, int flags, int mode) { return sim_open(path, flags, mode); }
X int sim_creat(const char *path, mode_t m) { return sim_open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
X int sim_unlink(const char *path) { ENTER("unlink"); if (denied()) return fail(EACCES); if (!sim->fs.erase(absp(path))) return fail(ENOENT); return 0; }
X int sim_rename(const char *a, const char *b) { ENTER("rename"); if (denied()) return fail(EACCES); auto it = sim->fs.find(absp(a)); if (it == sim->fs.end()) return fail(ENOENT); auto i = it->second; sim->fs.erase(it); i->path = absp(b); sim->fs[i->path] = i; return 0; }
X int sim_access(const char *path, int) { ENTER("access"); return sim->fs.count(absp(path)) ? 0 : fail(ENOENT); }
static int do_stat(Inode *i, struct stat *st) { memset(st, 0, sizeof *st); st->st_mode = (i->is_socket ? S_IFSOCK : S_IFREG) | i->mode; st->st_size = (off_t)i->data.size(); st->st_nlink = 1; st->st_blksize = 4096; return 0; }
X int sim_stat(const char *path, struct stat *st) { ENTER("stat"); auto it = sim->fs.find(absp(path)); if (it == sim->fs.end()) return fail(ENOENT); return do_stat(it->second.get(), st); }
X int sim_lstat(const char *path, struct stat *st) { return sim_stat(path, st); }
X int sim_fstat(int fd, struct stat *st) {
    ENTER("fstat"); FileP f = fd_get(fd); if (!f) { misuse("fstat", fd); return fail(EBADF); }
    if (auto r = dynamic_cast<RegFile *>(f.get())) return do_stat(r->ino.get(), st);
    memset(st, 0, sizeof *st); st->st_mode = f->sock() ? S_IFSOCK : !strncmp(f->kind(), "pipe", 4) ? S_IFIFO : S_IFCHR; return 0;
}
X off_t sim_lseek(int fd, off_t o, int w) { ENTER("lseek"); FileP f = fd_get(fd); if (!f) { misuse("lseek", fd); return fail(EBADF); } auto r = dynamic_cast<RegFile *>(f.get()); if (!r) return fail(ESPIPE); off_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off_t)r->off : (off_t)r->ino->data.size(); if (b + o < 0) return fail(EINVAL); r->off = (size_t)(b + o); return b + o; }
X int sim_vdprintf(int fd, const char *f, va_list ap) { char *b = nullptr; int n = vasprintf(&b, f, ap); if (n < 0) return -1; ssize_t r = 0; for (int d = 0; d < n && (r = sim_write(fd, b + d, (size_t)(n - d))) >= 0;) d += (int)r; free(b); return r < 0 ? -1 : n; }
X int sim_dprintf(int fd, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vdprintf(fd, f, ap); va_end(ap); return r; }
X ssize_t sim_pread(int fd, void *b, size_t n, off_t o) { FileP f = fd_get(fd); auto r = dynamic_cast<RegFile *>(f.get()); if (f && !r) return fail(ESPIPE); size_t was = r ? r->off : 0; if (r) r->off = (size_t)o; ssize_t k = io_read("read", fd, b, n, 0); if (r) r->off = was; return k; }
X ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o) { FileP f = fd_get(fd); auto r = dynamic_cast<RegFile *>(f.get()); if (f && !r) return fail(ESPIPE); size_t was = r ? r->off : 0; if (r) r->off = (size_t)o; ssize_t k = io_write("write", fd, b, n, 0); if (r) r->off = was; return k; }
X int sim_fsync(int fd);
X int sim_fdatasync(int fd) { return sim_fsync(fd); }
X int sim_fsync(int fd) { ENTER("fsync"); if (!fd_get(fd)) { misuse("fsync", fd); return fail(EBADF); } return 0; }
X int sim_chdir(const char *d) { ENTER("chdir"); P->cwd = absp(d); return 0; }
X mode_t sim_umask(mode_t m) { mode_t o = P->umask_; P->umask_ = m & 0777; return o; }
X int sim_chmod(const char *p, mode_t m) { ENTER("chmod"); auto it = sim->fs.find(absp(p)); if (it == sim->fs.end()) return fail(ENOENT); it->second->mode = m; return 0; }
X int sim_fchmod(int fd, mode_t m) { ENTER("fchmod"); FileP f = fd_get(fd); if (!f) { misuse("fchmod", fd); return fail(EBADF); } if (auto r = dynamic_cast<RegFile *>(f.get())) r->ino->mode = m; return 0; }
X int sim_chown(const char *p, uid_t, gid_t) { ENTER("chown"); return sim->fs.count(p) ? 0 : fail(ENOENT); }
X int sim_fchown(int fd, uid_t, gid_t) { ENTER("fchown"); if (!fd_get(fd)) { misuse("fchown", fd); return fail(EBADF); } return 0; }
X int sim_ftruncate(int fd, off_t n) { ENTER("ftruncate"); FileP f = fd_get(fd); if (!f) { misuse("ftruncate", fd); return fail(EBADF); } auto r = dynamic_cast<RegFile *>(f.get()); if (!r) return fail(EINVAL); r->ino->data.resize((size_t)n); return 0; }
X int sim_isatty(int) { errno = ENOTTY; return 0; }
static int dup_to(int fd, int min, bool cx) { FileP f = fd_get(fd); if (!f) { misuse("dup", fd); return fail(EBADF); } int r = fd_alloc(P, f, min); if (r < 0) return fail(-r); P->fds[r].cloexec = cx; return r; }
X int sim_dup(int fd) { ENTER("dup"); return dup_to(fd, 0, false); }
X int sim_dup2(int fd, int to) {
    ENTER("dup2"); FileP f = fd_get(fd); if (!f) { misuse("dup2", fd); return fail(EBADF); } if (fd == to) return to; Process *p = P;
    if (to >= 0 && (size_t)to < p->fds.size() && p->fds[to].f) fd_close(p, to);
    if ((size_t)to >= p->fds.size()) p->fds.resize(to + 1);
    p->fds[to].f = f; p->fds[to].cloexec = false; f->refs++; f->owners.push_back(p); p->closed_info.erase(to); return to;
}
X int sim_dup3(int fd, int to, int fl) { if (fd == to) return fail(EINVAL); int r = sim_dup2(fd, to); if (r >= 0 && (fl & O_CLOEXEC)) P->fds[r].cloexec = true; return r; }
X int sim_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    ENTER("fcntl"); FileP f = fd_get(fd); if (!f) { misuse("fcntl", fd); return fail(EBADF); }
    switch (cmd) {
    case F_GETFL: return (f->oflags & ~O_NONBLOCK) | (f->nonblock ? O_NONBLOCK : 0) | (f->sock() ? O_RDWR : 0);
    case F_SETFL: f->nonblock = (int)a & O_NONBLOCK; return 0;
    case F_GETFD: return P->fds[fd].cloexec ? FD_CLOEXEC : 0;
    case F_SETFD: P->fds[fd].cloexec = a & FD_CLOEXEC; return 0;
    case F_DUPFD: return dup_to(fd, (int)a, false);
    case F_DUPFD_CLOEXEC: return dup_to(fd, (int)a, true);
    }
    return fail(EINVAL);
}
X int sim_fcntl64(int fd, int cmd, long a) { return sim_fcntl(fd, cmd, a); }
X int sim_ioctl(int fd, unsigned long req, void *a) {
    ENTER("ioctl"); FileP f = fd_get(fd); if (!f) { misuse("ioctl", fd); return fail(EBADF); }
    if (req == 0x5421) { f->nonblock = *(int *)a; return 0; }       // FIONBIO
    if (req == 0x541B) { *(int *)a = f->sock() ? (int)f->sock()->rxsize() : 0; return 0; }  // FIONREAD
    return fail(ENOTTY);
}
static int mkpipe(int fds[2], int fl) {
    Process *p = P; auto b = make_shared<PipeBuf>(); b->cap = sim->pipebuf;
    auto r = make_shared<PipeEnd>(b, false), w = make_shared<PipeEnd>(b, true); r->nonblock = w->nonblock = fl & O_NONBLOCK; w->oflags = O_WRONLY;
    int a = fd_alloc(p, r); if (a < 0) return fail(-a); int c = fd_alloc(p, w); if (c < 0) { fd_close(p, a); return fail(-c); }
    fds[0] = a; fds[1] = c; if (fl & O_CLOEXEC) p->fds[a].cloexec = p->fds[c].cloexec = true; return 0;
}
X int sim_pipe(int fds[2]) { ENTER("pipe"); return mkpipe(fds, 0); }
X int sim_pipe2(int fds[2], int fl) { ENTER("pipe"); return mkpipe(fds, fl); }

// ------------------------------------------------------------------ sockets
static int mksocket(int dom, int type) {
    SockP s = sim->mksock(dom); s->nonblock = type & SOCK_NONBLOCK; s->oflags = O_RDWR;
    int fd = fd_alloc(P, s); if (fd < 0) return fail(-fd); P->fds[fd].cloexec = type & SOCK_CLOEXEC; return fd;
}
X int sim_socket(int dom, int type, int) { ENTER("socket"); if (dom != AF_INET && dom != AF_INET6 && dom != AF_UNIX) return fail(EAFNOSUPPORT); if ((type & 15) == SOCK_RAW) return fail(EPERM); int fd = mksocket(dom, type); if (fd >= 0 && (type & 15) != SOCK_STREAM) fd_get(fd)->sock()->opts[{-1, 0}] = 1; return fd; }
X int sim_socketpair(int dom, int type, int, int sv[2]) {
    ENTER("socketpair"); if (dom != AF_UNIX) return fail(EOPNOTSUPP); Process *p = P;
    int a = mksocket(dom, type); if (a < 0) return -1; int b = mksocket(dom, type); if (b < 0) { int e = errno; fd_close(p, a); return fail(e); }
    Sock *x = p->fds[a].f->sock(), *y = p->fds[b].f->sock();
    auto fl = make_shared<Flow>(); fl->id = sim->next_id++; fl->local_unix = true; fl->established = true; fl->src = fl->dst = "socketpair"; fl->t_start = sim->now; sim->flows.push_back(fl);
    x->flow = y->flow = fl; x->side = 0; y->side = 1; x->st = y->st = Sock::S_EST; fl->end[0] = std::static_pointer_cast<Sock>(x->shared_from_this()); fl->end[1] = std::static_pointer_cast<Sock>(y->shared_from_this());
    sv[0] = a; sv[1] = b; return 0;
}
#define GETSOCK(name) FileP fp_ = fd_get(fd); if (!fp_) { misuse(name, fd); return fail(EBADF); } Sock *s = fp_->sock(); if (!s) return fail(ENOTSOCK)
// Does a connection accepted at this address live on in the kernel (not finished, or in TIME_WAIT for a minute)?
static bool addr_lingers(const string &a) {
    bool any = a.compare(0, 8, "0.0.0.0:") == 0 || a.compare(0, 5, "[::]:") == 0;
    for (auto &f : sim->flows) { if (f->local_unix || f->src == "socketpair") continue;
        if (f->src == a && f->established && !f->rst_seen && (!f->closed_by_end[0] || !f->closed_by_end[1] || (f->t_end[0] <= f->t_end[1] && sim->now < f->t_end[1] + 60 * SEC))) return true;      // as its source
        if (!f->acc_proc) continue;
        if (any ? f->dst.substr(f->dst.rfind(':')) != a.substr(a.rfind(':')) : f->dst != a) continue;
        if (f->rst_seen) continue;
        if (!f->closed_by_end[0] || !f->closed_by_end[1]) return true;
        if (f->t_end[1] <= f->t_end[0] && sim->now < f->t_end[0] + 60 * SEC) return true; }
    return false;
}
X int sim_bind(int fd, const struct sockaddr *sa, socklen_t l) {
    ENTER("bind"); GETSOCK("bind"); string a = sa_str(sa, l);
    if (s->st != Sock::S_NEW) return fail(EINVAL);
    if (s->domain != sa->sa_family) { sim->fire("bind_family_mismatch"); return fail(s->domain == AF_INET6 ? EINVAL : EAFNOSUPPORT); }
    auto be = sim->bind_err.find(flow_ip(a)); if (be != sim->bind_err.end()) { sim->fire("bind_error"); return fail(be->second); }
    if (s->domain == AF_UNIX) { if (sim->fs.count(a)) return fail(EADDRINUSE); if (denied()) return fail(EACCES); auto i = sim->mkfile(a, ""); i->is_socket = true; i->mode = 0777 & ~P->umask_; }
    else { if (sim->listeners.count(a)) return fail(EADDRINUSE); int port = atoi(a.c_str() + a.rfind(':') + 1);
        if (port > 0 && port < 1024 && P->euid != 0) { sim->fire("privileged_port_refused"); return fail(EACCES); }
        if (port > 0 && !s->opts[{SOL_SOCKET, SO_REUSEADDR}] && addr_lingers(a)) { sim->fire("address_still_in_use"); return fail(EADDRINUSE); }
        if (a.size() > 2 && a.compare(a.size() - 2, 2, ":0") == 0) a = a.substr(0, a.size() - 1) + std::to_string(40000 + sim->next_id++ % 20000); }
    s->local = a; s->st = Sock::S_BOUND; return 0;
}
X int sim_listen(int fd, int bl) {
    ENTER("listen"); GETSOCK("listen"); if (s->opts.count({-1, 0})) return fail(EOPNOTSUPP); if (s->st == Sock::S_LISTEN) { s->backlog = bl; return 0; } if (s->st != Sock::S_BOUND) return fail(EINVAL);
    if (sim->listeners.count(s->local)) return fail(EADDRINUSE);
    s->st = Sock::S_LISTEN; s->backlog = bl; s->creator = P; sim->listeners[s->local] = std::static_pointer_cast<Sock>(fp_); sim->log("%s listens on %s", P->name.c_str(), s->local.c_str()); return 0;
}
static int do_accept(int fd, struct sockaddr *sa, socklen_t *l, int fl) {
    ENTER("accept"); testcancel();
    if (eintr_any()) return fail(EINTR);
    if (sim->p_accept_abort > 0 && sim->rs.chance(sim->p_accept_abort)) { GETSOCK("accept"); if (!s->acceptq.empty() && s->acceptq.front()->reset) { s->acceptq.pop_front(); sim->fire("accept_aborted"); return fail(ECONNABORTED); } }
    for (;;) {
        { GETSOCK("accept"); if (s->st != Sock::S_LISTEN) return fail(EINVAL);
          if (s->nonblock && !s->acceptq.empty() && sim->rs.chance(sim->p_eagain)) { sim->fire("spurious_eagain"); return fail(EAGAIN); }
          if (!s->acceptq.empty()) {
            SockP c = s->acceptq.front(); Process *p = P;
            c->nonblock = (fl & SOCK_NONBLOCK) || (sim->bsd && s->nonblock); c->oflags = O_RDWR; c->creator = p;
            int n = fd_alloc(p, c); if (n < 0) return fail(-n);
            s->acceptq.pop_front(); p->fds[n].cloexec = fl & SOCK_CLOEXEC;
            put_sa(c->remote, sa, l); p->n_accepts++; c->flow->acc_proc = p;
            sim->log("%s accept on %s -> fd %d (flow %llu)", p->name.c_str(), s->local.c_str(), n, (unsigned long long)c->flow->id);
            if (sim->on_accept) sim->on_accept(p, c);
            return n;
          }
          if (s->nonblock) return fail(EAGAIN); }
        bool ok = sim_block("accept", [keep = fd_get(fd)] { return keep->pollmask() != 0; }, -1, true); testcancel(); if (!ok) return fail(EINTR);
    }
}
X int sim_accept(int fd, struct sockaddr *sa, socklen_t *l) { return do_accept(fd, sa, l, 0); }
X int sim_accept4(int fd, struct sockaddr *sa, socklen_t *l, int fl) { return do_accept(fd, sa, l, fl); }
X int sim_connect(int fd, const struct sockaddr *sa, socklen_t l) {
    ENTER("connect"); testcancel();
    { GETSOCK("connect"); string a = sa_str(sa, l); if (s->opts.count({-1, 0})) return fail(EPROTOTYPE);
      if (s->st == Sock::S_EST) return fail(EISCONN);
      if (s->st == Sock::S_LISTEN || s->st == Sock::S_CLOSED) return fail(EINVAL);
      if (s->st != Sock::S_CONNECTING) {
        s->creator = P; sim->begin_connect(std::static_pointer_cast<Sock>(fp_), a);
        sim->log("%s connect(%d, %s)", P->name.c_str(), fd, a.c_str());
        if (s->st == Sock::S_EST) return 0;
        if (s->st == Sock::S_NEW) { int e = s->so_error; s->so_error = 0; return fail(e ? e : ECONNREFUSED); }
        if (s->nonblock) { if (sim->rs.chance(sim->p_eintr) && sim->eintr_budget-- > 0) { sim->fire("connect_eintr"); return fail(EINTR); } return fail(EINPROGRESS); }
      } else if (s->nonblock) return fail(EALREADY); }
    for (;;) {
        { GETSOCK("connect"); if (s->st == Sock::S_EST) return 0; if (s->st != Sock::S_CONNECTING) { int e = s->so_error; s->so_error = 0; return fail(e ? e : ECONNREFUSED); } }
        bool ok = sim_block("connect", [keep = fd_get(fd)] { return keep->sock()->st != Sock::S_CONNECTING; }, -1, true); testcancel(); if (!ok) return fail(EINTR);
    }
}
X int sim_shutdown(int fd, int how) {
    if (Fault *f = sim_step("shutdown")) if (f->err > 0) { int e = f->err; if (f->mode == "after") { FileP fp = fd_get(fd); if (fp && fp->sock()) fp->sock()->do_shutdown(how); } else mark_faulted(fd); errno = e; return -1; }
    GETSOCK("shutdown"); if (sim->trace) sim->log("  %s shutdown(%d,%d)", P->name.c_str(), fd, how); int r = s->do_shutdown(how); return r < 0 ? fail(-r) : 0; }
X int sim_getsockopt(int fd, int lv, int nm, void *v, socklen_t *l) {
    if (Fault *f = sim_step("getsockopt")) if (f->err > 0) { mark_faulted(fd); errno = f->err; return -1; }
    GETSOCK("getsockopt"); int r = 0;
    if (lv == SOL_SOCKET && nm == SO_ERROR) { r = s->so_error; s->so_error = 0; }
    else if (lv == SOL_SOCKET && nm == SO_TYPE) r = SOCK_STREAM;
    else if (lv == SOL_SOCKET && nm == SO_SNDBUF) r = (int)s->sndcap;
    else { auto it = s->opts.find({lv, nm}); if (it != s->opts.end()) r = it->second; }
    if (*l < sizeof(int)) return fail(EINVAL); memcpy(v, &r, sizeof r); *l = sizeof r; return 0;
}
X int sim_setsockopt(int fd, int lv, int nm, const void *v, socklen_t l) {
    ENTER("setsockopt"); GETSOCK("setsockopt"); int r = 0; if (l >= sizeof(int)) memcpy(&r, v, sizeof r);
    if (lv == SOL_SOCKET && nm == SO_LINGER) { auto lg = (const struct linger *)v; if (lg->l_onoff && lg->l_linger == 0) s->opts[{lv, nm}] = 1; return 0; }
    if (lv != SOL_SOCKET && s->domain == AF_UNIX) return fail(EOPNOTSUPP);
    s->opts[{lv, nm}] = r; return 0;
}
X int sim_getsockname(int fd, struct sockaddr *sa, socklen_t *l) { ENTER("getsockname"); GETSOCK("getsockname"); put_sa(s->local.empty() && s->domain != AF_UNIX ? "0.0.0.0:0" : s->local, sa, l); return 0; }
X int sim_getpeername(int fd, struct sockaddr *sa, socklen_t *l) { ENTER("getpeername"); GETSOCK("getpeername"); if (s->st != Sock::S_EST) return fail(ENOTCONN); put_sa(s->remote, sa, l); return 0; }

// ------------------------------------------------------------------ poll / select
static int poll_scan(Process *p, vector<struct pollfd> &v) {
    int n = 0;
    for (auto &e : v) { e.revents = 0; if (e.fd < 0) continue;
        if ((size_t)e.fd >= p->fds.size() || !p->fds[e.fd].f) { e.revents = POLLNVAL; n++; continue; }
        e.revents = (short)(p->fds[e.fd].f->pollmask() & (e.events | POLLERR | POLLHUP | POLLNVAL)); if (e.revents) n++; }
    return n;
}
static int do_poll(struct pollfd *u, nfds_t nf, i64 tmo_ns) {
    if (Fault *f = sim_step("poll")) if (f->err > 0) return fail(f->err);
    testcancel(); Process *p = P; p->polls++;
    { vector<struct pollfd> v(u, u + nf);
      for (auto &e : v) if (e.fd >= 0 && ((size_t)e.fd >= p->fds.size() || !p->fds[e.fd].f)) misuse("poll", e.fd);
      if (eintr_any()) return fail(EINTR);
      int n = poll_scan(p, v); if (n || tmo_ns == 0) { for (size_t i = 0; i < nf; i++) u[i].revents = v[i].revents; if (n) p->poll_returns++; sim->mix((u64)n); return n; } }
    i64 dl = tmo_ns < 0 ? -1 : sim->now + tmo_ns + (sim->rs.chance(0.3) ? sim->rs.range(0, 2 * MS) : 0);
    { auto v = make_shared<vector<struct pollfd>>(u, u + nf); bool ok = sim_block("poll", [p, v] { return poll_scan(p, *v) > 0; }, dl, true); (void)ok; v.reset(); }
    testcancel();
    if (sim->cur->intr) { sim->cur->intr = false; errno = EINTR; return -1; }
    vector<struct pollfd> v(u, u + nf); int n = poll_scan(p, v); for (size_t i = 0; i < nf; i++) u[i].revents = v[i].revents; if (n) p->poll_returns++; sim->mix((u64)n);
    return n;
}
X int sim_poll(struct pollfd *u, nfds_t nf, int tmo) { return do_poll(u, nf, tmo < 0 ? -1 : (i64)tmo * MS); }
X int sim_ppoll(struct pollfd *u, nfds_t nf, const struct timespec *ts, const sigset_t *) { return do_poll(u, nf, ts ? ts->tv_sec * SEC + ts->tv_nsec : -1); }
static int do_select(int n, fd_set *r, fd_set *w, fd_set *e, i64 t) {
    vector<struct pollfd> v; for (int i = 0; i < n; i++) { short m = 0; if (r && FD_ISSET(i, r)) m |= POLLIN; if (w && FD_ISSET(i, w)) m |= POLLOUT; if (e && FD_ISSET(i, e)) m |= POLLPRI; if (m) v.push_back({i, m, 0}); }
    int k = do_poll(v.data(), v.size(), t); if (k < 0) return -1; int c = 0; if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e);
    for (auto &x : v) { if (x.revents & POLLNVAL) return fail(EBADF); if (r && (x.events & POLLIN) && (x.revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(x.fd, r); c++; } if (w && (x.events & POLLOUT) && (x.revents & (POLLOUT | POLLERR | POLLHUP))) { FD_SET(x.fd, w); c++; } }
    return c;
}
X int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { return do_select(n, r, w, e, t ? t->tv_sec * SEC + t->tv_usec * US : -1); }
X int sim_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *) { return do_select(n, r, w, e, t ? t->tv_sec * SEC + t->tv_nsec : -1); }

// ------------------------------------------------------------------ time
static i64 clk(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? sim->real_off + sim->now : c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID ? sim->now / 100 : sim->mono_off + sim->now; }
X int sim_clock_gettime(clockid_t c, struct timespec *ts) { if (Fault *f = sim_step("clock_gettime")) if (f->err > 0) return fail(f->err); i64 t = clk(c); ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC; return 0; }
X int sim_clock_getres(clockid_t, struct timespec *ts) { if (ts) { ts->tv_sec = 0; ts->tv_nsec = 1; } return 0; }
X int sim_gettimeofday(struct timeval *tv, void *) { sim_step("gettimeofday"); i64 t = clk(CLOCK_REALTIME); tv->tv_sec = t / SEC; tv->tv_usec = t % SEC / 1000; return 0; }
X time_t sim_time(time_t *o) { time_t t = clk(CLOCK_REALTIME) / SEC; if (o) *o = t; return t; }
static int do_sleep(i64 ns) { testcancel(); bool ok = sim_block("sleep", [] { return false; }, sim->now + ns, true); (void)ok; testcancel(); if (sim->cur->intr) { sim->cur->intr = false; return -1; } return 0; }
X unsigned sim_sleep(unsigned s) { sim_step("sleep"); i64 t0 = sim->now; if (do_sleep(s * SEC)) return (unsigned)std::max<i64>(0, s - (sim->now - t0) / SEC); return 0; }
X int sim_usleep(useconds_t u) { ENTER("usleep"); if (do_sleep((i64)u * US)) return fail(EINTR); return 0; }
X int sim_nanosleep(const struct timespec *r, struct timespec *rem) { ENTER("nanosleep"); i64 t0 = sim->now, d = r->tv_sec * SEC + r->tv_nsec; if (do_sleep(d)) { if (rem) { i64 l = std::max<i64>(0, d - (sim->now - t0)); rem->tv_sec = l / SEC; rem->tv_nsec = l % SEC; } return fail(EINTR); } return 0; }
X int sim_clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *) { sim_step("nanosleep"); i64 d = r->tv_sec * SEC + r->tv_nsec; if (fl & TIMER_ABSTIME) d -= clk(c); if (d < 0) d = 0; return do_sleep(d) ? EINTR : 0; }

// ------------------------------------------------------------------ memory
static void *heap_alloc(size_t n, bool zero, void *ra) {
    Process *p = P; Slot *s = p->slot;
    u64 k = ++p->n_malloc;
    if (!sim->faults.empty()) if (Fault *f = sim->fault_hit(p, "malloc", k)) { (void)f; errno = ENOMEM; return nullptr; }
    void *r = p->heap.alloc(n, (u32)((u8 *)ra - s->base), zero); if (!r) errno = ENOMEM; return r;
}
static void heap_free(void *q) { if (!q) return; Process *p = P; string why; int e = errno; if (p->heap.release(q, why) < 0 && p->violations.size() < 10) { p->violations.push_back(why); sim->log("misuse %s: %s", p->name.c_str(), why.c_str()); } errno = e; }
X void *sim_malloc(size_t n) { sim_relax(); return heap_alloc(n, false, __builtin_return_address(0)); }
X void *sim_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return heap_alloc(n, true, __builtin_return_address(0)); }
X void sim_free(void *q) { heap_free(q); sim_relax(); }
X void *sim_realloc(void *q, size_t n) {
    if (!q) return heap_alloc(n, false, __builtin_return_address(0));
    if (n == 0) { heap_free(q); return nullptr; }
    void *r = heap_alloc(n, false, __builtin_return_address(0)); if (!r) return nullptr;
    memcpy(r, q, std::min(n, P->heap.usable(q))); heap_free(q); return r;
}
X void *sim_reallocarray(void *q, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return sim_realloc(q, n); }
X int sim_posix_memalign(void **o, size_t al, size_t n) { if (al > 16) n += al; void *r = heap_alloc(n, false, __builtin_return_address(0)); if (!r) return ENOMEM; if (al > 16) { /* keep the block start: alignment only matters for speed here */ if ((u64)r % al) { heap_free(r); r = heap_alloc(n, false, __builtin_return_address(0)); if (!r) return ENOMEM; } } *o = r; return 0; }
X void *sim_aligned_alloc(size_t, size_t n) { return heap_alloc(n, false, __builtin_return_address(0)); }
X char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)heap_alloc(n, false, __builtin_return_address(0)); if (r) memcpy(r, s, n); return r; }
X char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = (char *)heap_alloc(n + 1, false, __builtin_return_address(0)); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
X int sim_vasprintf(char **o, const char *f, va_list ap) { va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, f, a2); va_end(a2); *o = (char *)heap_alloc(n + 1, false, __builtin_return_address(0)); if (!*o) return -1; return vsnprintf(*o, n + 1, f, ap); }
X int sim_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vasprintf(o, f, ap); va_end(ap); return r; }

// OpenSSL objects: failure injection and leak accounting
static bool bn_fault() { Process *p = P; u64 k = ++p->ncalls["bn"]; if (!sim->faults.empty() && sim->fault_hit(p, "bn", k)) return true; return false; }
X BIGNUM *sim_BN_new(void) { if (bn_fault()) return nullptr; BIGNUM *b = BN_new(); if (b) { P->bn_live++; P->bn_set.insert(b); } return b; }
X BIGNUM *sim_BN_bin2bn(const unsigned char *s, int l, BIGNUM *r) { if (bn_fault()) return nullptr; BIGNUM *b = BN_bin2bn(s, l, r); if (b && !r) { P->bn_live++; P->bn_set.insert(b); } return b; }
X BIGNUM *sim_BN_dup(const BIGNUM *a) { if (bn_fault()) return nullptr; BIGNUM *b = BN_dup(a); if (b) { P->bn_live++; P->bn_set.insert(b); } return b; }
static bool bn_del(void *b) { Process *p = P; if (!b) return false; if (!p->bn_set.erase(b)) { p->violations.push_back("BN_free() of a number that is not live"); return false; } p->bn_live--; return true; }
X void sim_BN_free(BIGNUM *b) { if (bn_del(b)) BN_free(b); }
X void sim_BN_clear_free(BIGNUM *b) { if (bn_del(b)) BN_clear_free(b); }
X BN_CTX *sim_BN_CTX_new(void) { if (bn_fault()) return nullptr; P->bnctx_live++; return BN_CTX_new(); }
X BN_CTX *sim_BN_CTX_secure_new(void) { if (bn_fault()) return nullptr; P->bnctx_live++; return BN_CTX_new(); }
X void sim_BN_CTX_free(BN_CTX *c) { if (c) P->bnctx_live--; BN_CTX_free(c); }
X int sim_BN_mod_exp(BIGNUM *r, const BIGNUM *a, const BIGNUM *p, const BIGNUM *m, BN_CTX *ctx) { sim_step("modexp"); sim->now += 1 * MS; if (bn_fault()) return 0; return BN_mod_exp(r, a, p, m, ctx); }
X int sim_BN_mod_exp_mont_consttime(BIGNUM *r, const BIGNUM *a, const BIGNUM *p, const BIGNUM *m, BN_CTX *ctx, BN_MONT_CTX *mont) { sim_step("modexp"); sim->now += 1 * MS; if (bn_fault()) return 0; return BN_mod_exp_mont_consttime(r, a, p, m, ctx, mont); }
X int sim_BN_add(BIGNUM *r, const BIGNUM *a, const BIGNUM *b) { if (bn_fault()) return 0; return BN_add(r, a, b); }
X int sim_BN_sub(BIGNUM *r, const BIGNUM *a, const BIGNUM *b) { if (bn_fault()) return 0; return BN_sub(r, a, b); }
X int sim_BN_mod_mul(BIGNUM *r, const BIGNUM *a, const BIGNUM *b, const BIGNUM *m, BN_CTX *c) { if (bn_fault()) return 0; return BN_mod_mul(r, a, b, m, c); }

// ------------------------------------------------------------------ entropy
// The other sources of randomness are the same stream, with the same failures (getrandom is never short below 256 bytes).
X ssize_t sim_getrandom(void *b, size_t n, unsigned) { ENTER("getrandom"); double ps = sim->p_short; if (n <= 256) sim->p_short = 0; URandom u; ssize_t r = u.do_read(b, n); sim->p_short = ps; return r <= 0 ? fail(r < 0 ? (int)-r : EIO) : r; }
X int sim_getentropy(void *b, size_t n) { if (n > 256) return fail(EIO); return sim_getrandom(b, n, 0) < 0 ? -1 : 0; }
X void sim_arc4random_buf(void *b, size_t n) { (void)sim_step("arc4random_buf"); u8 *p = (u8 *)b; while (n) { URandom u; double ps = sim->p_short; sim->p_short = 0; ssize_t r = u.do_read(p, n); sim->p_short = ps; if (r <= 0) { for (size_t i = 0; i < n; i++) p[i] = (u8)(sim->re.next() >> 33); break; } p += r; n -= (size_t)r; } }
X uint32_t sim_arc4random() { uint32_t v; sim_arc4random_buf(&v, 4); return v; }

// ------------------------------------------------------------------ stdio over simulated descriptors
struct Cookie { Process *p; int fd; bool std; };
// stdio may be a cancellation point but need not be one: never unwind out of the host's stdio
struct NoCancel { Fiber *f; bool o; NoCancel() : f(sim->cur), o(f->cancel_disabled) { f->cancel_disabled = true; } ~NoCancel() { f->cancel_disabled = o; } };
static ssize_t ck_read(void *c_, char *b, size_t n) { Cookie *c = (Cookie *)c_; if (!sim || !sim->cur) return 0; NoCancel nc; return io_read("read", c->fd, b, n, 0); }
static ssize_t ck_write(void *c_, const char *b, size_t n) { Cookie *c = (Cookie *)c_; if (!sim || !sim->cur) return (ssize_t)n; NoCancel nc; size_t d = 0; while (d < n) { ssize_t r = io_write("write", c->fd, b + d, n - d, 0); if (r < 0) return (ssize_t)d; d += (size_t)r; } return (ssize_t)d; }
static int ck_seek(void *c_, off64_t *o, int w) { Cookie *c = (Cookie *)c_; if (!sim || !sim->cur) return -1; off_t r = sim_lseek(c->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c_) { Cookie *c = (Cookie *)c_; int r = 0; if (sim && sim->cur && !c->std) r = sim_close(c->fd); else if (sim && sim->cur && c->std && sim->cur->proc->alive) r = sim_close(c->fd); delete c; return r; }
static FILE *mkfile_(Process *p, int fd, const char *mode, bool std) {
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close}; Cookie *c = new Cookie{p, fd, std};
    FILE *f = fopencookie(c, mode, io); p->files.push_back(f); p->file_fd[f] = fd; return f;
}
X FILE *sim_stderr, *sim_stdin, *sim_stdout; FILE *sim_stderr, *sim_stdin, *sim_stdout;
void setup_stdio(Process *p) {
    if (p->fds.size() < 3) p->fds.resize(3);
    for (int i = 0; i < 3; i++) if (!p->fds[i].f) { FileP f; if (i == 0) f = make_shared<NullFile>(); else f = make_shared<ErrFile>(); p->fds[i].f = f; f->refs++; f->owners.push_back(p); }
    p->in = mkfile_(p, 0, "r", true); p->out = mkfile_(p, 1, "w", true); p->err = mkfile_(p, 2, "w", true); setvbuf(p->err, nullptr, _IONBF, 0); setvbuf(p->out, nullptr, _IONBF, 0);
}
void stdio_swap(Process *p) { sim_stdin = p->in; sim_stdout = p->out; sim_stderr = p->err; }
X FILE *sim_fopen(const char *path, const char *mode) {
    int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND; if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR; if (strchr(mode, 'x')) fl |= O_EXCL;
    if (Fault *f = sim_step("fopen")) if (f->err > 0) { errno = f->err; return nullptr; }
    int fd = sim_open(path, fl, 0666); if (fd < 0) return nullptr; return mkfile_(P, fd, mode, false);
}
X FILE *sim_fdopen(int fd, const char *mode) { if (!fd_get(fd)) { misuse("fdopen", fd); errno = EBADF; return nullptr; } return mkfile_(P, fd, mode, false); }
static void forget(Process *p, FILE *f) { for (size_t i = 0; i < p->files.size(); i++) if (p->files[i] == f) { p->files.erase(p->files.begin() + i); break; } p->file_fd.erase(f); }
X int sim_fclose(FILE *f) {
    Process *p = P; bool known = false; for (auto q = p; q; q = q->parent) for (auto x : q->files) if (x == f) known = true;
    if (!known) { p->violations.push_back("fclose() of a stream that is not open"); return fail(EBADF); }
    bool mine = p->file_fd.count(f); if (!mine) { sim_close(p->parent ? p->parent->file_fd[f] : -1); return 0; }
    Fault *fl = sim_step("fclose");
    forget(p, f); int r = fclose(f); if (fl && fl->err > 0) { errno = fl->err; return EOF; } return r;
}
X int sim_fileno(FILE *f) { for (auto q = P; q; q = q->parent) { auto it = q->file_fd.find(f); if (it != q->file_fd.end()) return it->second; } return fail(EBADF); }
X int sim_vprintf(const char *f, va_list ap) { return vfprintf(sim_stdout, f, ap); }
X int sim_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(sim_stdout, f, ap); va_end(ap); return r; }
X int sim_puts(const char *s) { return fprintf(sim_stdout, "%s\n", s); }
X int sim_putchar(int c) { return fputc(c, sim_stdout); }
X int sim_getchar(void) { return fgetc(sim_stdin); }
X void sim_vwarn(const char *f, va_list ap) { int e = errno; fprintf(sim_stderr, "%s: ", P->name.c_str()); if (f) { vfprintf(sim_stderr, f, ap); fprintf(sim_stderr, ": "); } fprintf(sim_stderr, "%s\n", strerror(e)); }
X void sim_vwarnx(const char *f, va_list ap) { fprintf(sim_stderr, "%s: ", P->name.c_str()); if (f) vfprintf(sim_stderr, f, ap); fprintf(sim_stderr, "\n"); }
X void sim_exit(int);
X void sim_warn(const char *f, ...) { va_list ap; va_start(ap, f); sim_vwarn(f, ap); va_end(ap); }
X void sim_warnx(const char *f, ...) { va_list ap; va_start(ap, f); sim_vwarnx(f, ap); va_end(ap); }
X void sim_err(int s, const char *f, ...) { va_list ap; va_start(ap, f); sim_vwarn(f, ap); va_end(ap); sim_exit(s); }
X void sim_errx(int s, const char *f, ...) { va_list ap; va_start(ap, f); sim_vwarnx(f, ap); va_end(ap); sim_exit(s); }
X void sim_perror(const char *s) { fprintf(sim_stderr, "%s: %s\n", s, strerror(errno)); }
X ssize_t sim_getline(char **l, size_t *n, FILE *f) { char *hl = nullptr; size_t hn = 0; ssize_t r = getline(&hl, &hn, f); if (r >= 0) { sim_free(*l); *l = sim_strdup(hl); *n = (size_t)r + 1; } free(hl); return r; }
X ssize_t sim_getdelim(char **l, size_t *n, int d, FILE *f) { char *hl = nullptr; size_t hn = 0; ssize_t r = getdelim(&hl, &hn, d, f); if (r >= 0) { sim_free(*l); *l = (char *)sim_malloc((size_t)r + 1); if (*l) memcpy(*l, hl, (size_t)r + 1); *n = (size_t)r + 1; } free(hl); return r; }
X int sim_fflush(FILE *f) { return f ? fflush(f) : 0; }
void forget_files(Process *) {}
X void sim_openlog(const char *, int, int) { sim_step("openlog"); }
X void sim_closelog(void) { sim_step("closelog"); }
X void sim_vsyslog(int, const char *f, va_list ap) { sim_step("syslog"); char b[1024]; vsnprintf(b, sizeof b, f, ap); P->syslog_out += string(b) + "\n"; if (sim->trace) sim->log("%s syslog: %s", P->name.c_str(), b); }
X void sim_syslog(int, const char *f, ...) { va_list ap; va_start(ap, f); sim_vsyslog(0, f, ap); va_end(ap); }

// ------------------------------------------------------------------ process life
void proc_exit_normal(int status) {
    Process *p = P;
    if (!p->in_exit) { p->in_exit = true; }
    while (!p->atexits.empty()) { auto f = p->atexits.back(); p->atexits.pop_back(); f(); }
    { i64 n = 0; for (auto f : p->fibers) if (f->st != Fiber::DONE) n++; p->marks["exit_threads"] = n - 1; n = 0; for (auto f : p->fibers) if (f->st == Fiber::DONE && !f->joined && !f->detached && f != p->mainf) n++; p->marks["exit_unjoined"] = n; }
    p->marks["exit_live_blocks"] = (i64)p->heap.live_blocks; p->marks["exit_live_fds"] = p->live_fds(); p->marks["exit_sync"] = p->nsync; p->marks["exit_bn"] = p->bn_live; p->marks["exit_bnctx"] = p->bnctx_live;
    proc_exit_now(status & 255, 0, "exit");
}
X void sim_exit(int s) { sim_step("exit"); proc_exit_normal(s); }
X void sim__exit(int s) { sim_step("_exit"); proc_exit_now(s & 255, 0, "_exit"); }
X void sim__Exit(int s) { sim__exit(s); }
X void sim_quick_exit(int s) { sim__exit(s); }
X int sim_atexit(void (*f)(void)) { if (Fault *fl = sim->fault_hit(P, "atexit", ++P->ncalls["atexit"])) { (void)fl; return -1; } P->atexits.push_back(f); return 0; }
X void sim_abort(void) { proc_exit_now(0, SIGABRT, "abort()"); }
X void sim___assert_fail(const char *e, const char *file, unsigned line, const char *fn) { const char *b = strrchr(file, '/'); sim->log("assert %s %s:%u", e, file, line); proc_exit_now(0, SIGABRT, fmt("assertion failed: %s (%s:%u %s)", e, b ? b + 1 : file, line, fn)); }
X void sim___stack_chk_fail(void) { proc_exit_now(0, SIGABRT, "stack smashing detected"); }
X pid_t sim_fork(void) {
    Fault *fl = sim_step("fork"); if (fl && fl->err > 0) return fail(fl->err);
    Process *p = sim->cur->proc; Fiber *f = sim->cur;
    Process *c = do_fork(p, f);
    if (!c) { sim->log("fork child %d", P->pid); return 0; }
    sim->log("fork parent -> %d", c->pid); sim->fire("fork"); return c->pid;
}
X pid_t sim_vfork(void) { return fail(ENOSYS); }
X pid_t sim_getpid(void) { return P->pid; }
X pid_t sim_getppid(void) { return P->parent && P->parent->alive ? P->parent->pid : P->ppid; }
X pid_t sim_setsid(void) { ENTER("setsid"); if (P->setsid_done) return fail(EPERM); P->setsid_done = true; P->sid = P->pid; return P->pid; }
X pid_t sim_getsid(pid_t) { return P->sid; }
X pid_t sim_getpgrp(void) { return P->pid; }
X int sim_daemon(int, int) { return fail(ENOSYS); }
X pid_t sim_waitpid(pid_t pid, int *st, int opt) {
    ENTER("waitpid"); Process *p = P;
    for (;;) {
        bool any = false; for (auto c : sim->procs) if (c->parent == p && (pid <= 0 || c->pid == pid) && !c->marks.count("reaped")) { any = true; if (c->exited) { c->marks["reaped"] = 1; if (st) *st = c->termsig ? c->termsig : (c->status << 8); return c->pid; } }
        if (!any) return fail(ECHILD); if (opt & WNOHANG) return 0;
        bool ok = sim_block("waitpid", [p, pid] { for (auto c : sim->procs) if (c->parent == p && (pid <= 0 || c->pid == pid) && c->exited && !c->marks.count("reaped")) return true; return false; }, -1, true); if (!ok) return fail(EINTR);
    }
}
X pid_t sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
X int sim_kill(pid_t pid, int s) { ENTER("kill"); for (auto c : sim->procs) if (c->pid == pid && c->alive) { if (s) { sim->signal_proc(c, s); if (c == P) run_signals(); } return 0; } return fail(ESRCH); }
X int sim_raise(int s) { sim->signal_proc(P, s); run_signals(); return 0; }
typedef void (*hnd)(int);
static hnd set_hnd(int s, hnd h, bool reset) { Process *p = P; hnd o = p->sighand.count(s) ? (hnd)p->sighand[s] : SIG_DFL; if (h == SIG_DFL) p->sighand.erase(s); else p->sighand[s] = (void *)h; if (reset && h != SIG_IGN && h != SIG_DFL) p->sig_resethand.insert(s); else p->sig_resethand.erase(s); return o; }
X hnd sim_signal(int s, hnd h) { if (Fault *f = sim_step("signal")) if (f->err > 0) { errno = f->err; return SIG_ERR; } return set_hnd(s, h, false); }
X hnd sim___sysv_signal(int s, hnd h) { if (Fault *f = sim_step("signal")) if (f->err > 0) { errno = f->err; return SIG_ERR; } return set_hnd(s, h, true); }
X hnd sim_bsd_signal(int s, hnd h) { return sim_signal(s, h); }
X int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o) {
    ENTER("sigaction"); Process *p = P; if (o) { memset(o, 0, sizeof *o); o->sa_handler = p->sighand.count(s) ? (hnd)p->sighand[s] : SIG_DFL; }
    if (a) { set_hnd(s, a->sa_handler, a->sa_flags & SA_RESETHAND); p->sig_restart[s] = a->sa_flags & SA_RESTART; } return 0;
}
X int sim_sigprocmask(int, const sigset_t *, sigset_t *o) { if (o) sigemptyset(o); return 0; }
X int sim_pthread_sigmask(int, const sigset_t *, sigset_t *o) { if (o) sigemptyset(o); return 0; }
X unsigned sim_alarm(unsigned) { return 0; }
X int sim_pause(void) { sim_step("pause"); sim_block("pause", [] { return false; }, -1, true); testcancel(); return fail(EINTR); }

// ------------------------------------------------------------------ credentials
static void cl(const string &s) { P->calllog.push_back({s, sim->now}); }
X uid_t sim_getuid(void) { return P->uid; } X uid_t sim_geteuid(void) { return P->euid; } X gid_t sim_getgid(void) { return P->gid; } X gid_t sim_getegid(void) { return P->egid; }
X int sim_setuid(uid_t u) { ENTER("setuid"); Process *p = P; if (u == (uid_t)-1) return fail(EINVAL); if (p->euid == 0) { p->uid = p->euid = u; p->dropped |= u != 0; } else if (u == p->uid) p->euid = u; else return fail(EPERM); cl(fmt("setuid %d", u)); return 0; }
X int sim_setgid(gid_t g) { ENTER("setgid"); Process *p = P; if (g == (gid_t)-1) return fail(EINVAL); if (p->euid == 0) p->gid = p->egid = g; else if (g == p->gid) p->egid = g; else return fail(EPERM); cl(fmt("setgid %d", g)); return 0; }
X int sim_seteuid(uid_t u) { ENTER("seteuid"); Process *p = P; if (p->euid == 0 || u == p->uid) { p->dropped |= p->euid == 0 && u; p->euid = u; return 0; } return fail(EPERM); }
X int sim_setegid(gid_t u) { ENTER("setegid"); Process *p = P; if (p->euid == 0 || u == p->gid) { p->egid = u; return 0; } return fail(EPERM); }
X int sim_setreuid(uid_t r, uid_t e) { ENTER("setuid"); Process *p = P; if (p->euid) return fail(EPERM); if (r != (uid_t)-1) p->uid = r; if (e != (uid_t)-1) { p->euid = e; p->dropped |= e != 0; } cl(fmt("setreuid %d", r)); return 0; }
X int sim_setregid(gid_t r, gid_t e) { ENTER("setgid"); Process *p = P; if (p->euid) return fail(EPERM); if (r != (gid_t)-1) p->gid = r; if (e != (gid_t)-1) p->egid = e; return 0; }
X int sim_setresuid(uid_t r, uid_t e, uid_t) { return sim_setreuid(r, e); }
X int sim_setresgid(gid_t r, gid_t e, gid_t) { return sim_setregid(r, e); }
X int sim_setgroups(size_t n, const gid_t *g) { ENTER("setgroups"); Process *p = P; if (p->euid) return fail(EPERM); p->groups.assign(g, g + n); cl(fmt("setgroups %zu", n)); return 0; }
X int sim_initgroups(const char *, gid_t g) { ENTER("setgroups"); Process *p = P; if (p->euid) return fail(EPERM); p->groups = {g}; return 0; }
X int sim_getgroups(int n, gid_t *g) { ENTER("getgroups"); Process *p = P; if (n == 0) return (int)p->groups.size(); if ((size_t)n < p->groups.size()) return fail(EINVAL); for (size_t i = 0; i < p->groups.size(); i++) g[i] = p->groups[i]; return (int)p->groups.size(); }
X struct passwd *sim_getpwnam(const char *n) { if (Fault *f = sim_step("getpwnam")) if (f->err > 0) { errno = f->err; return nullptr; } static struct passwd pw; static char nm[64]; auto it = sim->users.find(n); if (it == sim->users.end()) { errno = 0; return nullptr; } snprintf(nm, sizeof nm, "%s", n); pw.pw_name = nm; pw.pw_uid = it->second.first; pw.pw_gid = it->second.second; pw.pw_dir = (char *)"/"; pw.pw_shell = (char *)"/bin/sh"; pw.pw_passwd = (char *)"x"; return &pw; }
X struct group *sim_getgrnam(const char *n) { if (Fault *f = sim_step("getgrnam")) if (f->err > 0) { errno = f->err; return nullptr; } static struct group gr; static char nm[64]; static char *mem[1] = {nullptr}; auto it = sim->groups.find(n); if (it == sim->groups.end()) { errno = 0; return nullptr; } snprintf(nm, sizeof nm, "%s", n); gr.gr_name = nm; gr.gr_gid = it->second; gr.gr_mem = mem; gr.gr_passwd = (char *)"x"; return &gr; }

X int sim_getpwnam_r(const char *n, struct passwd *o, char *b, size_t bl, struct passwd **r) { *r = nullptr; struct passwd *q = sim_getpwnam(n); if (!q) return errno; if (bl < 64) return ERANGE; *o = *q; snprintf(b, bl, "%s", n); o->pw_name = b; *r = o; return 0; }
X int sim_getgrnam_r(const char *n, struct group *o, char *b, size_t bl, struct group **r) { *r = nullptr; struct group *q = sim_getgrnam(n); if (!q) return errno; if (bl < 64) return ERANGE; *o = *q; snprintf(b, bl, "%s", n); o->gr_name = b; *r = o; return 0; }
// ------------------------------------------------------------------ name resolution
X int sim_getaddrinfo(const char *host, const char *serv, const struct addrinfo *hints, struct addrinfo **out) {
    Fault *fl = sim_step("getaddrinfo"); testcancel(); P->marks["dns_queries"]++;
    if (fl && fl->err != 0) { return fl->err == ENOMEM ? EAI_MEMORY : fl->err < 0 ? fl->err : EAI_AGAIN; }
    i64 delay; { DnsAns a; u8 nb_[16]; bool num_ = host && (inet_pton(AF_INET, host, nb_) == 1 || inet_pton(AF_INET6, host, nb_) == 1); if (num_) a.addrs = {host}; else if (sim->dns) a = sim->dns(host ? host : "", P); else a.err = EAI_NONAME; delay = a.delay; sim->cur->keep = make_shared<DnsAns>(a); }
    if (delay < 0) { sim->fire("dns_hang"); for (;;) { sim_block("getaddrinfo", [] { return false; }, -1, false); testcancel(); } }
    i64 end = sim->now + delay; while (delay > 0 && sim->now < end) { sim_block("getaddrinfo", [] { return false; }, end, false); testcancel(); }
    DnsAns *a = (DnsAns *)sim->cur->keep.get();
    if (a->err) { sim->fire("dns_failure"); return a->err; }
    struct addrinfo *first = nullptr, **tail = &first; int port = serv ? atoi(serv) : 0, fam = hints ? hints->ai_family : AF_UNSPEC, typ = hints ? hints->ai_socktype : 0;
    for (auto &s : a->addrs) {
        struct sockaddr_storage ss; socklen_t l; str_sa(fmt(s.find(':') != string::npos && s[0] != '[' ? "[%s]:%d" : "%s:%d", s.c_str(), port), &ss, &l);
        if (fam != AF_UNSPEC && fam != ss.ss_family) continue;
        static const std::pair<int, int> KINDS[] = {{SOCK_STREAM, IPPROTO_TCP}, {SOCK_DGRAM, IPPROTO_UDP}, {SOCK_RAW, 0}};
        for (auto &st : KINDS) {
            if (typ && typ != st.first) continue;
            struct addrinfo *ai = (struct addrinfo *)heap_alloc(sizeof *ai + l, true, nullptr); if (!ai) { for (auto x = first; x;) { auto n = x->ai_next; heap_free(x); x = n; } return EAI_MEMORY; }
            ai->ai_family = ss.ss_family; ai->ai_socktype = st.first; ai->ai_protocol = st.second; ai->ai_addrlen = l; ai->ai_addr = (struct sockaddr *)(ai + 1); memcpy(ai->ai_addr, &ss, l); *tail = ai; tail = &ai->ai_next;
        }
    }
    if (!first) return EAI_NONAME;
    *out = first; return 0;
}
X void sim_freeaddrinfo(struct addrinfo *a) { while (a) { auto n = a->ai_next; heap_free(a); a = n; } }

// ------------------------------------------------------------------ threads
static Fiber *by_tid(Process *p, int tid) { for (auto f : p->fibers) if (f->tid == tid) return f; return nullptr; }
static void do_cancel() {
    Fiber *f = sim->cur; f->cancelling = true; f->cancel_disabled = true;
    if (!f->cleanup.empty()) { void *b = f->cleanup.back(); f->cleanup.pop_back(); longjmp((struct __jmp_buf_tag *)b, 1); }
    fiber_exit(PTHREAD_CANCELED);
}
static void testcancel() { Fiber *f = sim->cur; if (f->cancel_req && !f->cancel_disabled && !f->cancelling) { sim->fire("thread_cancelled"); do_cancel(); } }
X void sim___pthread_register_cancel(void *b) { sim->cur->cleanup.push_back(b); }
X void sim___pthread_unregister_cancel(void *) { if (!sim->cur->cleanup.empty()) sim->cur->cleanup.pop_back(); }
X void sim___pthread_unwind_next(void *) { do_cancel(); }
X int sim_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    if (Fault *f = sim_step("pthread_create")) return f->err > 0 ? f->err : EAGAIN;
    Process *p = P; Fiber *f = make_fiber(p, [fn, arg] { void *r = fn(arg); fiber_exit(r); });
    int ds = 0; if (at) pthread_attr_getdetachstate(at, &ds); f->detached = ds == PTHREAD_CREATE_DETACHED;
    *t = (pthread_t)(unsigned long)f->tid; sim->fire("thread_start");
    if (sim->rs.chance(0.3)) sim_yield();
    return 0;
}
static void mutex_wait(void *m);
X int sim_pthread_join(pthread_t t, void **r) {
    if (Fault *fl = sim_step("pthread_join")) if (fl->err > 0) return fl->err;
    testcancel(); Process *p = P; Fiber *f = by_tid(p, (int)(unsigned long)t);
    if (!f || f->joined || f->detached) { p->violations.push_back("pthread_join() of a thread that was already joined or detached"); return ESRCH; }
    if (f == sim->cur) return EDEADLK;
    while (f->st != Fiber::DONE) { sim_block("pthread_join", [f] { return f->st == Fiber::DONE; }, -1, false); testcancel(); }
    f->joined = true; if (r) *r = f->ret; return 0;
}
X int sim_pthread_detach(pthread_t t) { sim_step("pthread_detach"); Fiber *f = by_tid(P, (int)(unsigned long)t); if (!f || f->joined || f->detached) { P->violations.push_back("pthread_detach() of a thread that was already joined or detached"); return ESRCH; } f->detached = true; return 0; }
X void sim_pthread_exit(void *r) { fiber_exit(r); }
X pthread_t sim_pthread_self(void) { return (pthread_t)(unsigned long)sim->cur->tid; }
X int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
X int sim_pthread_cancel(pthread_t t) {
    if (Fault *fl = sim_step("pthread_cancel")) if (fl->err > 0) return fl->err;
    Process *p = P; Fiber *f = by_tid(p, (int)(unsigned long)t);
    if (!f || f->joined || (f->detached && f->st == Fiber::DONE)) { p->violations.push_back("pthread_cancel() of a thread that was already joined"); return ESRCH; }
    f->cancel_req = true; if (f->st == Fiber::BLOCKED && !f->cancel_disabled && f->what != "mutex") f->st = Fiber::READY; return 0;
}
X int sim_pthread_kill(pthread_t, int s) { if (s) sim->signal_proc(P, s); return 0; }
X void sim_pthread_testcancel(void) { sim_step("testcancel"); testcancel(); }
X int sim_pthread_setcancelstate(int s, int *o) { Fiber *f = sim->cur; if (o) *o = f->cancel_disabled ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE; f->cancel_disabled = s == PTHREAD_CANCEL_DISABLE; return 0; }
X int sim_pthread_setcanceltype(int, int *o) { if (o) *o = 0; return 0; }
// an object that was never initialised, or was destroyed, must not be used (all zero bytes: static initialiser)
static bool not_init(const void *m, size_t n) { const u8 *b = (const u8 *)m; for (size_t i = 0; i < n; i++) if (b[i]) return true; return false; }
static void use_mutex(pthread_mutex_t *m, const char *what) { Process *p = P; if (!p->mutexes.count(m) && not_init(m, sizeof *m) && p->violations.size() < 10) p->violations.push_back(string(what) + "() of a mutex that is not initialised"); }
static void use_cond(pthread_cond_t *c, const char *what) { Process *p = P; if (!p->condq.count(c) && not_init(c, sizeof *c) && p->violations.size() < 10) p->violations.push_back(string(what) + "() of a condition variable that is not initialised"); }
X int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { if (Fault *f = sim_step("mutex_init")) if (f->err > 0) return f->err; memset(m, 0, sizeof *m); P->mutexes[m] = Process::Mutex(); P->nsync++; return 0; }
X int sim_pthread_mutex_destroy(pthread_mutex_t *m) { if (Fault *f = sim_step("mutex_destroy")) if (f->err > 0) return f->err; Process *p = P; use_mutex(m, "pthread_mutex_destroy"); auto it = p->mutexes.find(m); if (it != p->mutexes.end()) { if (it->second.owner) p->violations.push_back("pthread_mutex_destroy() of a locked mutex"); p->mutexes.erase(it); p->nsync--; } memset(m, 0xdb, sizeof *m); return 0; }
static void mutex_wait(void *m) {
    Process *p = P; int tid = sim->cur->tid; use_mutex((pthread_mutex_t *)m, "pthread_mutex_lock");
    while (p->mutexes[m].owner) { if (p->mutexes[m].owner == tid) { if (p->violations.size() < 10) p->violations.push_back("a thread locked a mutex it already holds (self-deadlock)"); } sim_block("mutex", [p, m] { auto it = p->mutexes.find(m); return it == p->mutexes.end() || !it->second.owner; }, -1, false); }
    p->mutexes[m].owner = tid;
}
X int sim_pthread_mutex_lock(pthread_mutex_t *m) { if (Fault *f = sim_step("mutex_lock")) if (f->err > 0) return f->err; mutex_wait(m); return 0; }
X int sim_pthread_mutex_trylock(pthread_mutex_t *m) { if (Fault *f = sim_step("mutex_lock")) if (f->err > 0) return f->err; auto &x = P->mutexes[m]; if (x.owner) return EBUSY; x.owner = sim->cur->tid; return 0; }
X int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return sim_pthread_mutex_lock(m); }
X int sim_pthread_mutex_unlock(pthread_mutex_t *m) { if (Fault *f = sim_step("mutex_unlock")) if (f->err > 0) return f->err; auto it = P->mutexes.find(m); if (it == P->mutexes.end() || it->second.owner != sim->cur->tid) { P->violations.push_back("pthread_mutex_unlock() of a mutex the thread does not hold"); return EPERM; } it->second.owner = 0; P->dirty = true; sim_relax(); return 0; }
X int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { if (Fault *f = sim_step("cond_init")) if (f->err > 0) return f->err; memset(c, 0, sizeof *c); P->condq[c].clear(); P->nsync++; return 0; }
X int sim_pthread_cond_destroy(pthread_cond_t *c) { if (Fault *f = sim_step("cond_destroy")) if (f->err > 0) return f->err; Process *p = P; use_cond(c, "pthread_cond_destroy"); auto it = p->condq.find(c); if (it != p->condq.end()) { if (!it->second.empty()) p->violations.push_back("pthread_cond_destroy() while a thread is waiting"); p->condq.erase(it); p->nsync--; } memset(c, 0xdb, sizeof *c); return 0; }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, i64 deadline) {
    if (Fault *f = sim_step("cond_wait")) if (f->err > 0) return f->err;
    testcancel(); Process *p = P; Fiber *f = sim->cur;
    auto it = p->mutexes.find(m); if (it == p->mutexes.end() || it->second.owner != f->tid) { p->violations.push_back("pthread_cond_wait() without holding the mutex"); return EPERM; }
    use_cond(c, "pthread_cond_wait"); u64 ticket = ++p->cond_seq; p->condq[c].push_back({f->tid, ticket}); it->second.owner = 0; p->dirty = true;
    bool spur = sim->rs.chance(sim->p_spurcond); if (spur) sim->fire("spurious_cond_wakeup");
    i64 dl = spur ? sim->now + sim->rs.range(0, 5 * MS) : deadline;
    sim_block("cond_wait", [p, c, ticket] { auto q = p->condq.find(c); if (q == p->condq.end()) return true; for (auto &w : q->second) if (w.second == ticket) return false; return true; }, dl, false);
    bool tmo = f->timed_out && !spur;
    auto q = p->condq.find(c); if (q != p->condq.end()) for (size_t i = 0; i < q->second.size(); i++) if (q->second[i].second == ticket) { q->second.erase(q->second.begin() + i); break; }
    mutex_wait(m); testcancel(); return tmo ? ETIMEDOUT : 0;
}
X int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, -1); }
X int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return cond_wait(c, m, ts->tv_sec * SEC + ts->tv_nsec - sim->real_off); }
X int sim_pthread_cond_signal(pthread_cond_t *c) { if (Fault *f = sim_step("cond_signal")) if (f->err > 0) return f->err; use_cond(c, "pthread_cond_signal"); auto &q = P->condq[c]; if (!q.empty()) { q.erase(q.begin() + sim->rs.below(q.size())); P->dirty = true; } sim_relax(); return 0; }
X int sim_pthread_cond_broadcast(pthread_cond_t *c) { if (Fault *f = sim_step("cond_broadcast")) if (f->err > 0) return f->err; use_cond(c, "pthread_cond_broadcast"); P->condq[c].clear(); P->dirty = true; return 0; }
X int sim_pthread_once(pthread_once_t *o, void (*fn)(void)) { if (P->once_done.insert(o).second) fn(); return 0; }
X int sim_pthread_key_create(pthread_key_t *k, void (*)(void *)) { static unsigned n; *k = ++n; return 0; }
X int sim_pthread_key_delete(pthread_key_t) { return 0; }
X void *sim_pthread_getspecific(pthread_key_t k) { auto it = P->tsd.find(k * 1000 + sim->cur->tid); return it == P->tsd.end() ? nullptr : it->second; }
X int sim_pthread_setspecific(pthread_key_t k, const void *v) { P->tsd[k * 1000 + sim->cur->tid] = (void *)v; return 0; }
X int sim_pthread_atfork(void (*)(void), void (*)(void), void (*)(void)) { return 0; }
X int sim_pthread_setname_np(pthread_t, const char *) { return 0; }
// semaphores: the value is kept in the object itself
struct SSem { u64 magic; long v; };
static SSem *use_sem(sem_t *s, const char *what) { SSem *m = (SSem *)s; if (m->magic != 0x5e35e35e35ULL) { if (P->violations.size() < 10) P->violations.push_back(string(what) + "() of a semaphore that is not initialised"); return nullptr; } return m; }
X int sim_sem_init(sem_t *s, int, unsigned v) { memset(s, 0, sizeof *s); ((SSem *)s)->magic = 0x5e35e35e35ULL; ((SSem *)s)->v = v; return 0; }
X int sim_sem_destroy(sem_t *s) { if (!use_sem(s, "sem_destroy")) return fail(EINVAL); memset(s, 0xdb, sizeof *s); return 0; }
X int sim_sem_post(sem_t *s) { sim_step("sem_post"); SSem *m = use_sem(s, "sem_post"); if (!m) return fail(EINVAL); m->v++; P->dirty = true; sim_relax(); return 0; }
X int sim_sem_trywait(sem_t *s) { sim_step("sem_wait"); SSem *m = use_sem(s, "sem_wait"); if (!m) return fail(EINVAL); if (m->v <= 0) return fail(EAGAIN); m->v--; return 0; }
X int sim_sem_wait(sem_t *s) { sim_step("sem_wait"); SSem *m = use_sem(s, "sem_wait"); if (!m) return fail(EINVAL); testcancel(); while (m->v <= 0) { bool ok = sim_block("sem_wait", [m] { return m->v > 0; }, -1, true); testcancel(); if (!ok) return fail(EINTR); } m->v--; return 0; }
X int sim_sem_getvalue(sem_t *s, int *v) { SSem *m = use_sem(s, "sem_getvalue"); if (!m) return fail(EINVAL); *v = (int)m->v; return 0; }
X int sim_sched_yield(void) { sim_step("sched_yield"); sim_yield(); return 0; }
