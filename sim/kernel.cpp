// Simulated kernel objects: descriptors, files, pipes, sockets and the network.
#include "core.h"
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/socket.h>

File::File() { id = sim->next_id++; }
File::~File() {}
void File::notify() { for (auto p : owners) p->dirty = true; }

int fd_alloc(Process *p, FileP f, int minfd) {
    size_t i = (size_t)std::max(minfd, p->fd_base);        // fd_base: descriptors below it were inherited from the parent
    while (i < p->fds.size() && p->fds[i].f) i++;
    if ((int)i >= p->max_fds) return -EMFILE;
    if (i >= p->fds.size()) p->fds.resize(i + 1);
    p->fds[i].f = f; p->fds[i].cloexec = false; f->refs++; f->owners.push_back(p);
    p->closed_info.erase(i); p->ever_fd[(int)i] = true;
    return (int)i;
}
int fd_close(Process *p, int fd) {
    if (fd < 0 || (size_t)fd >= p->fds.size() || !p->fds[fd].f) return -EBADF;
    FileP f = p->fds[fd].f; p->fds[fd].f.reset();
    auto &o = f->owners; for (size_t k = 0; k < o.size(); k++) if (o[k] == p) { o.erase(o.begin() + k); break; }
    p->closed_info[fd] = f->kind();
    if (--f->refs == 0) f->on_last_close();
    return 0;
}
FileP fd_get(int fd) { Process *p = cur_proc(); if (!p || fd < 0 || (size_t)fd >= p->fds.size()) return nullptr; return p->fds[fd].f; }

// ------------------------------------------------------------------ files
ssize_t RegFile::do_read(void *b, size_t n) {
    auto e = ino->rd_err.lower_bound(off);
    size_t lim = ino->data.size();
    if (e != ino->rd_err.end()) { if (e->first == off) { sim->fire("file_read_error"); return -e->second; } lim = std::min(lim, e->first); }
    if (off >= lim) return 0;
    n = std::min(n, lim - off);
    if (n > 1 && sim->rs.chance(sim->p_short)) { n = 1 + sim->rs.below(n); sim->fire("short_file_read"); }
    memcpy(b, ino->data.data() + off, n); off += n; return (ssize_t)n;
}
ssize_t RegFile::do_write(const void *b, size_t n, int) {
    if (append) off = ino->data.size();
    if (n > 512 && sim->rs.chance(sim->p_short)) n = 1 + sim->rs.below(n);
    if (ino->data.size() < off + n) ino->data.resize(off + n);
    memcpy(&ino->data[off], b, n); off += n; return (ssize_t)n;
}
ssize_t URandom::do_read(void *b, size_t n) {
    Process *p0 = cur_proc();
    if (p0) { if (Fault *f = sim->fault_hit(p0, "urandom", ++p0->ncalls["urandom"])) return f->err > 0 ? -f->err : 0; }
    if (sim->urandom_eof >= 0 && p0 && p0->marks["urandom_bytes"] >= sim->urandom_eof) { sim->fire("entropy_eof"); return 0; }
    if (sim->entropy_fail) { sim->fire("entropy_read_error"); return -EIO; }
    if (n > 1 && sim->rs.chance(sim->p_short)) { n = 1 + sim->rs.below(n); sim->fire("short_entropy_read"); }
    u8 *p = (u8 *)b; for (size_t i = 0; i < n; i++) p[i] = (u8)(sim->re.next() >> 33);
    if (p0) { i64 &done = p0->marks["urandom_bytes"]; if (!p0->marks.count("urandom_first")) p0->marks["urandom_first"] = sim->now; p0->marks["urandom_last"] = sim->now;
        if (sim->urandom_flip >= done && sim->urandom_flip < done + (i64)n) { p[sim->urandom_flip - done] ^= 0x10; sim->fire("entropy_byte_changed"); }
        done += (i64)n; }
    return (ssize_t)n;
}
ssize_t ErrFile::do_write(const void *b, size_t n, int) {
    Process *p = cur_proc(); if (p) { p->err_out.append((const char *)b, n); if (sim->trace) sim->log("%s stderr: %.*s", p->name.c_str(), (int)std::min<size_t>(n, 300), (const char *)b); }
    return (ssize_t)n;
}

// ------------------------------------------------------------------ pipes
PipeEnd::PipeEnd(shared_ptr<PipeBuf> b_, bool w) : b(b_), wr(w) { (wr ? b->writers : b->readers)++; b->ends.push_back(this); }
PipeEnd::~PipeEnd() { for (size_t i = 0; i < b->ends.size(); i++) if (b->ends[i] == this) { b->ends.erase(b->ends.begin() + i); break; } }
void PipeBuf::kick() { for (auto e : ends) e->notify(); if (reader_actor) reader_actor->kick(); if (writer_actor) writer_actor->kick(); }
void PipeEnd::on_last_close() { (wr ? b->writers : b->readers)--; b->kick(); }
ssize_t PipeEnd::do_read(void *d, size_t n) {
    if (wr) return -EBADF;
    if (b->size() == 0) return b->writers > 0 ? -EAGAIN : 0;
    n = std::min(n, b->size());
    if (n > 1 && sim->rs.chance(sim->p_short)) { n = 1 + sim->rs.below(n); sim->fire("short_read"); }
    memcpy(d, b->buf.data() + b->pos, n); b->pos += n; if (b->pos > 65536 || b->pos == b->buf.size()) { b->buf.erase(0, b->pos); b->pos = 0; }
    b->kick(); return (ssize_t)n;
}
ssize_t PipeEnd::do_write(const void *d, size_t n, int) {
    if (!wr) return -EBADF;
    if (b->readers <= 0) return -EPIPE;
    size_t sp = b->cap > b->size() ? b->cap - b->size() : 0;
    if (n <= std::min<size_t>(4096, b->cap) ? sp < n : sp == 0) return -EAGAIN;
    n = std::min(n, sp);
    if (n > (nonblock ? 4096u : 1u) && sim->rs.chance(sim->p_short)) { n = 1 + sim->rs.below(n); sim->fire("short_write"); }
    b->buf.append((const char *)d, n); b->kick(); return (ssize_t)n;
}
int PipeEnd::pollmask() {
    if (wr) return (b->cap - b->size() >= std::min<size_t>(4096, b->cap) ? POLLOUT : 0) | (b->readers <= 0 ? POLLERR : 0);
    return (b->size() ? POLLIN : 0) | (b->writers <= 0 ? POLLHUP : 0);
}

// ------------------------------------------------------------------ actors
void Actor::kick() {
    if (pending || dead) return;
    pending = true;
    u64 g = ++wake_gen; i64 d = sim->ra.range(react_min, react_max);
    sim->after(d, [this, g] { if (dead || g != wake_gen) { pending = false; return; } pending = false; wake(); });
}

// ------------------------------------------------------------------ sockets
static void sock_notify(Sock *s) { s->notify(); if (s->actor) s->actor->kick(); }

SockP Sim::mksock(int domain) {
    auto s = make_shared<Sock>(); s->domain = domain; s->sndcap = domain == AF_UNIX ? unixbuf : sockbuf; s->t_created = now; s->creator = cur_proc(); return s;
}
string flow_ip(const string &a) { size_t i = a.rfind(':'); return a[0] == '/' || i == string::npos ? a : a.substr(0, i); }

size_t Sock::wspace() {
    if (!flow) return 0;
    size_t used = flow->link[side].inflight; if (auto p = flow->end[1 - side].lock()) used += p->rxsize();
    return used >= sndcap ? 0 : sndcap - used;
}
int Sock::pollmask() {
    if (st == S_LISTEN) return acceptq.empty() ? 0 : POLLIN | POLLRDNORM;
    if (st == S_CONNECTING) return 0;
    if (st == S_NEW || st == S_BOUND) return so_error ? POLLIN | POLLOUT | POLLERR | POLLHUP : POLLOUT | POLLHUP;
    int m = 0;
    if (rxsize() || rx_fin || so_error || reset || rx_shut) m |= POLLIN | POLLRDNORM;
    if (so_error) m |= POLLERR;
    if ((rx_fin && tx_shut) || reset) m |= POLLHUP;
    if (rx_fin || rx_shut || reset) m |= POLLRDHUP;
    if (tx_shut || reset || so_error) m |= POLLOUT | POLLWRNORM;
    else {
        size_t w = wspace(), need = sim->bsd ? std::min<size_t>(sndcap, 2048) : domain == AF_UNIX ? sndcap * 3 / 4 : (sndcap + 2) / 3;
        if (w >= std::max<size_t>(need, 1)) m |= POLLOUT | POLLWRNORM;
    }
    if (sim->bsd && (m & POLLHUP)) m &= ~(POLLOUT | POLLWRNORM | POLLERR); // POSIX: POLLHUP excludes POLLOUT; the BSDs report no POLLERR for sockets
    return m;
}
ssize_t Sock::peek_read(void *b, size_t n, bool peek) {
    if (st == S_LISTEN || st == S_NEW || st == S_BOUND) { if (so_error) { int e = so_error; so_error = 0; return -e; } return -ENOTCONN; }
    if (st == S_CONNECTING) return -EAGAIN;
    if (rx_shut) return 0;
    if (rxsize()) {
        n = std::min(n, rxsize());
        if (n > 1 && sim->rs.chance(sim->p_short)) { n = 1 + sim->rs.below(n); sim->fire("short_read"); }
        memcpy(b, rx.data() + rxpos, n);
        if (!peek) {
            rxpos += n; compact();
            auto fl = flow; int sd = side;
            if (auto p = fl->end[1 - sd].lock()) { weak_ptr<Sock> w = p; if (domain == AF_UNIX) sock_notify(p.get()); else sim->after(fl->link[sd].latency, [w] { if (auto q = w.lock()) sock_notify(q.get()); }); }
        }
        return (ssize_t)n;
    }
    if (so_error) { int e = so_error; so_error = 0; return -e; }
    if (rx_fin || reset) return 0;
    return -EAGAIN;
}
ssize_t Sock::do_read(void *b, size_t n) { return peek_read(b, n, false); }
ssize_t Sock::do_write(const void *b, size_t n, int) {
    if (st == S_CONNECTING) return -EAGAIN;
    if (so_error) { int e = so_error; so_error = 0; return -e; }
    if (st != S_EST) return st == S_LISTEN || st == S_NEW || st == S_BOUND ? -ENOTCONN : -EPIPE;
    if (tx_shut || reset) return -EPIPE;
    if (domain == AF_UNIX) { auto p = flow->end[1 - side].lock(); if (!p || p->app_closed) return -EPIPE; }
    size_t w = wspace(); if (w == 0) return -EAGAIN;
    if (n == 0) return 0;
    size_t k = std::min(n, w);
    if (k > 1 && sim->rs.chance(sim->p_short)) { k = 1 + sim->rs.below(k); sim->fire("short_write"); }
    tx_total += k; flow->write(side, (const u8 *)b, k); return (ssize_t)k;
}
int Sock::do_shutdown(int how) {
    if (st != S_EST || (reset && domain != AF_UNIX)) return -ENOTCONN;
    if (how == SHUT_WR || how == SHUT_RDWR) { if (!tx_shut) { tx_shut = true; flow->app_fin(side); } }
    if (how == SHUT_RD || how == SHUT_RDWR) { rx_shut = true; }
    sock_notify(this);
    return 0;
}
void Sock::rx_append(const u8 *d, size_t n) { rx.append((const char *)d, n); rx_total += n; sock_notify(this); }
void Sock::on_last_close() {
    if (sim->on_sock_close) sim->on_sock_close(this);
    app_closed = true; actor = nullptr;
    if (st == S_LISTEN) {
        auto it = sim->listeners.find(local); if (it != sim->listeners.end() && it->second.get() == this) { SockP keep = it->second; sim->listeners.erase(it); }
        auto q = std::move(acceptq); acceptq.clear();
        for (auto &s : q) { s->app_closed = true; s->flow->t_end[1] = sim->now; s->flow->app_rst(1); s->st = S_CLOSED; }
        listening_closed = true; on_accept = nullptr;
    } else if (st == S_EST) {
        flow->closed_by_end[side] = true; flow->t_end[side] = sim->now;
        if (!reset) {
            bool unread = rxsize() > 0;
            auto lg = opts.find({SOL_SOCKET, SO_LINGER});
            if (unread || lg != opts.end()) { sim->fire("close_with_unread_data"); flow->app_rst(side); }
            else if (!tx_shut) { tx_shut = true; flow->app_fin(side); }
        }
    } else if (st == S_CONNECTING && flow) { flow->closed_by_end[side] = true; flow->t_end[side] = sim->now; }
    st = S_CLOSED;
}

// ------------------------------------------------------------------ flows
void Mitm::data(Flow *f, int dir, const string &d) { f->emit(dir, d); }
void Mitm::fin(Flow *f, int dir) { f->emit_fin(dir); }
void Mitm::rst(Flow *f, int dir) { f->emit_rst(dir); }

void Flow::write(int dir, const u8 *d, size_t n) {
    sent_total[dir] += n; if (record) sent[dir].append((const char *)d, n);
    if (mitm) mitm->data(this, dir, string((const char *)d, n)); else emit(dir, string((const char *)d, n));
}
void Flow::app_fin(int dir) { if (mitm) mitm->fin(this, dir); else emit_fin(dir); }
void Flow::app_rst(int dir) { if (mitm) mitm->rst(this, dir); else emit_rst(dir); }
static i64 sched_at(Flow *f, int dir, size_t bytes) {
    Link &l = f->link[dir]; i64 at = sim->now + l.latency + (l.jitter ? sim->rn.range(0, l.jitter) : 0);
    at = std::max(at, l.last + (i64)bytes * l.bw_ns_per_byte); l.last = at; return at;
}
void Flow::emit(int dir, const string &d) {
    Link &l = link[dir]; if (l.dead) return;
    size_t off = 0; l.emitted += d.size();
    while (off < d.size()) {
        size_t k = std::min<size_t>(d.size() - off, (size_t)std::max(1, l.segmax));
        if (k > 1 && !local_unix && sim->rn.chance(0.2)) k = 1 + sim->rn.below(k);
        Seg s; s.type = 0; s.d = d.substr(off, k); s.w = k; s.at = local_unix ? sim->now : sched_at(this, dir, k); l.inflight += k; off += k;
        if (local_unix) { deliver(dir, s); } else l.q.push_back(std::move(s));
    }
    if (!local_unix) pump(dir);
}
void Flow::emit_fin(int dir) {
    Link &l = link[dir]; if (l.dead || l.fin_sent) return; l.fin_sent = true;
    Seg s; s.type = 1; s.at = local_unix ? sim->now : sched_at(this, dir, 0);
    if (local_unix) { deliver(dir, s); return; }
    l.q.push_back(s); pump(dir);
}
void Flow::emit_rst(int dir, int d) {
    Link &l = link[dir]; if (l.dead) return;
    Seg s; s.type = 2; s.at = local_unix ? sim->now : d >= 0 ? sim->now + d * US : sched_at(this, dir, 0);
    if (local_unix) { deliver(dir, s); return; }
    if (d >= 0) l.q.clear(), l.inflight = 0;
    l.q.push_back(s); pump(dir);
}
void Flow::pump(int dir) {
    Link &l = link[dir];
    auto self = shared_from_this();
    while (!l.q.empty() && l.q.front().at <= sim->now && l.stall_until <= sim->now) { Seg s = std::move(l.q.front()); l.q.pop_front(); deliver(dir, s); }
    if (!l.q.empty() && !l.pumping) {
        l.pumping = true; i64 t = std::max(l.q.front().at, l.stall_until);
        weak_ptr<Flow> w = self;
        sim->at(t, [w, dir] { if (auto f = w.lock()) { f->link[dir].pumping = false; f->pump(dir); } });
    }
}
void Flow::deliver(int dir, Seg &sg) {
    Link &l = link[dir];
    if (sg.type == 0) l.inflight -= std::min(l.inflight, sg.w);
    if (l.blackhole) { sim->fire("packets_blackholed"); return; }
    SockP s = end[1 - dir].lock(); bool gone = !s || s->app_closed || s->st == Sock::S_CLOSED;
    if (sg.type == 0) {
        recvd_total[dir] += sg.d.size(); if (record) recvd[dir] += sg.d;
        if (gone || s->reset) { if (!link[1 - dir].dead && !local_unix) { sim->fire("data_to_closed_socket_rst"); emit_rst(1 - dir); link[1 - dir].dead = true; } return; }
        if (s->rx_shut) { if (SockP me = end[dir].lock()) sock_notify(me.get()); return; }
        s->rx_append((const u8 *)sg.d.data(), sg.d.size());
        if (SockP me = end[dir].lock()) if (l.inflight == 0) sock_notify(me.get());
    } else if (sg.type == 1) {
        if (gone) return;
        s->rx_fin = true; sock_notify(s.get());
    } else {
        rst_seen = true; auto &o = link[1 - dir]; o.dead = true; for (auto x = o.q.begin(); x != o.q.end();) x = x->type != 2 ? o.q.erase(x) : x + 1; o.inflight = 0;
        if (gone) return;
        if (s->st == Sock::S_CONNECTING) { s->st = Sock::S_NEW; s->so_error = ECONNREFUSED; sock_notify(s.get()); return; }
        if (local_unix) { s->rx_fin = true; if (!s->so_error) s->so_error = ECONNRESET; s->reset = true; sock_notify(s.get()); return; }
        if (!s->reset) { s->reset = true; s->so_error = s->rx_fin && !s->rxsize() ? EPIPE : ECONNRESET; if (sim->rst_discards) { s->rx.clear(); s->rxpos = 0; } }
        sim->fire("connection_reset"); sock_notify(s.get());
    }
}

static SockP find_listener(const string &addr) {
    auto it = sim->listeners.find(addr); if (it != sim->listeners.end()) return it->second;
    size_t i = addr.rfind(':'); if (addr[0] != '/' && i != string::npos) { for (const char *w : {"0.0.0.0", "[::]"}) { auto j = sim->listeners.find(w + addr.substr(i)); if (j != sim->listeners.end()) return j->second; } }
    return nullptr;
}
static SockP make_server_end(SockP l, SockP c, shared_ptr<Flow> fl) {
    SockP s = make_shared<Sock>(); s->domain = c->domain; s->sndcap = c->domain == AF_UNIX ? sim->unixbuf : sim->sockbuf; s->st = Sock::S_EST; s->flow = fl; s->side = 1;
    s->local = l->local; s->remote = c->local; s->t_created = sim->now; fl->end[1] = s; s->ever_connected = true;
    fl->acc_proc = l->creator;
    return s;
}
static void queue_on_listener(SockP l, SockP s) {
    if (l->on_accept) { s->refs++; l->on_accept(s); }
    else { l->acceptq.push_back(s); sock_notify(l.get()); }
}
static void fail_connect(SockP c, int err) { c->st = Sock::S_NEW; c->so_error = err; sock_notify(c.get()); }
static void syn_arrive(shared_ptr<Flow> fl, int attempt) {
    SockP c = fl->end[0].lock(); if (!c || c->app_closed || c->st != Sock::S_CONNECTING) return;
    if (fl->link[0].blackhole) return;
    if (fl->link[0].stall_until > sim->now) { sim->at(fl->link[0].stall_until + fl->link[0].latency, [fl, attempt] { syn_arrive(fl, attempt); }); return; }
    i64 rt = fl->link[1].latency + (fl->link[1].jitter ? sim->rn.range(0, fl->link[1].jitter) : 0);
    SockP l = find_listener(fl->dst); weak_ptr<Sock> wc = c;
    if (!l) { sim->fire("connect_refused"); sim->after(rt, [wc] { if (auto c = wc.lock()) if (c->st == Sock::S_CONNECTING && !c->app_closed) fail_connect(c, ECONNREFUSED); }); return; }
    if (!l->on_accept && (int)l->acceptq.size() > l->backlog) {
        sim->fire("backlog_full_syn_dropped"); fl->syn_drops++;
        i64 d = SEC << std::min(attempt, 6); sim->after(d, [fl, attempt] { syn_arrive(fl, attempt + 1); }); return;
    }
    SockP s = make_server_end(l, c, fl);
    fl->link[1].last = std::max(fl->link[1].last, sim->now + rt);
    sim->after(rt, [wc, fl] {
        auto c = wc.lock();
        if (!c || c->app_closed || c->st != Sock::S_CONNECTING) { if (!fl->link[0].dead) { fl->link[0].fin_sent = true; fl->emit_rst(0); } return; }
        c->st = Sock::S_EST; c->ever_connected = true; fl->established = true; if (sim->on_flow_est) sim->on_flow_est(fl.get()); sock_notify(c.get());
    });
    // the connection becomes visible to accept() once the final ACK arrives
    weak_ptr<Sock> wl = l;
    sim->after(rt + fl->link[0].latency, [wl, s, fl] {
        auto l = wl.lock();
        if (!l || l->listening_closed) { s->app_closed = true; s->st = Sock::S_CLOSED; fl->emit_rst(1); return; }
        queue_on_listener(l, s);
    });
}
void Sim::begin_connect(SockP c, const string &addr) {
    auto fl = make_shared<Flow>(); fl->id = next_id++; fl->dst = addr; fl->t_start = now; fl->init_proc = c->creator; fl->record = record_wire; fl->local_unix = c->domain == AF_UNIX;
    fl->init_bound = c->local;
    if (c->local.empty()) { if (c->domain == AF_UNIX) c->local = fmt("@%llu", (unsigned long long)fl->id); else c->local = fmt("10.9.0.1:%d", 30000 + (int)(fl->id % 30000)); }
    fl->src = c->local; c->remote = addr; c->flow = fl; c->side = 0; fl->end[0] = c; c->so_error = 0;
    for (int d = 0; d < 2; d++) { fl->link[d].latency = lat; fl->link[d].jitter = jit; fl->link[d].segmax = segmax; }
    flows.push_back(fl);
    if (on_flow) on_flow(fl.get());
    c->st = Sock::S_CONNECTING;
    if (c->domain == AF_UNIX) {
        SockP l = find_listener(addr);
        if (!l) { c->st = Sock::S_NEW; auto f = fs.find(addr); c->so_error = f == fs.end() ? ENOENT : ECONNREFUSED; return; }
        if (!l->on_accept && (int)l->acceptq.size() > l->backlog) { c->st = Sock::S_NEW; c->so_error = EAGAIN; sim->fire("backlog_full_unix"); return; }
        SockP s = make_server_end(l, c, fl); c->st = Sock::S_EST; c->ever_connected = true; fl->established = true; if (on_flow_est) on_flow_est(fl.get());
        queue_on_listener(l, s); sock_notify(c.get()); return;
    }
    auto bi = blackhole.find(addr); if (bi == blackhole.end()) bi = blackhole.find(flow_ip(addr));
    weak_ptr<Sock> wc = c; std::pair<string, string> bp("", !fl->behav.empty() ? fl->behav : bi != blackhole.end() ? bi->second : ""), *b = &bp;
    if (!b->second.empty()) {
        if (b->second == "drop") { fire("connect_blackholed"); after(127 * SEC, [wc] { if (auto c = wc.lock()) if (c->st == Sock::S_CONNECTING && !c->app_closed) fail_connect(c, ETIMEDOUT); }); return; }
        if (b->second == "unreach") { fire("connect_unreachable"); after(2 * lat, [wc] { if (auto c = wc.lock()) if (c->st == Sock::S_CONNECTING && !c->app_closed) fail_connect(c, EHOSTUNREACH); }); return; }
        if (b->second == "netunreach") { fire("connect_netunreach_immediate"); c->st = Sock::S_NEW; c->so_error = ENETUNREACH; return; }
        if (b->second == "rst") { // accepts, then resets before completing
            fire("connect_reset"); after(2 * lat, [wc] { if (auto c = wc.lock()) if (c->st == Sock::S_CONNECTING && !c->app_closed) fail_connect(c, ECONNRESET); }); return; }
        if (b->second.rfind("imm:", 0) == 0) { fire("connect_fails_at_once"); c->st = Sock::S_NEW; c->so_error = atoi(b->second.c_str() + 4); return; }       // imm:<errno>
        if (b->second.rfind("err:", 0) == 0) { fire("connect_fails_later"); int e = atoi(b->second.c_str() + 4); size_t k = b->second.rfind(':'); i64 d = atoll(b->second.c_str() + k + 1) * MS; after(std::max<i64>(d, 2 * lat), [wc, e] { if (auto c = wc.lock()) if (c->st == Sock::S_CONNECTING && !c->app_closed) fail_connect(c, e); }); return; }      // err:<errno>:<ms>
        if (b->second.rfind("slow:", 0) == 0) { fire("connect_slow"); i64 d = atoll(b->second.c_str() + 5) * MS; after(d, [fl] { syn_arrive(fl, 0); }); return; }
    }
    after(fl->link[0].latency + (jit ? rn.range(0, jit) : 0), [fl] { syn_arrive(fl, 0); });
}
SockP Sim::nat_listen(const string &addr, Actor *a, function<void(SockP)> cb) {
    auto s = make_shared<Sock>(); s->domain = addr[0] == '/' ? AF_UNIX : AF_INET; s->local = addr; s->st = Sock::S_LISTEN; s->backlog = 128; s->actor = a; s->on_accept = std::move(cb); s->refs = 1;
    if (addr[0] == '/') { auto i = mkfile(addr, ""); i->is_socket = true; }
    listeners[addr] = s; return s;
}
SockP Sim::nat_connect(const string &addr, Actor *a, const string &local) {
    auto s = make_shared<Sock>(); s->domain = addr[0] == '/' ? AF_UNIX : AF_INET; s->sndcap = s->domain == AF_UNIX ? unixbuf : sockbuf; s->actor = a; s->local = local; s->refs = 1; s->nonblock = true; s->t_created = now;
    begin_connect(s, addr); if (a && s->so_error) a->kick();
    return s;
}
void Sim::nat_close(SockP s, bool rst) {
    if (!s || s->app_closed) return;
    if (rst) s->opts[{SOL_SOCKET, SO_LINGER}] = 1;
    s->refs = 0; s->on_last_close();
}
