// P22 P23 P24: the event loop, the asynchronous I/O functions and the threads, driven through
// their public interfaces by generated programs (sim/drv/drv.c) and compared with models.
#include "props.h"
#include <cmath>
#include "drv/drv.h"
#include <algorithm>
#include <poll.h>

struct Host { World &w; Process *p = nullptr; Host(World &w) : w(w) {} virtual ~Host() {}
    virtual bool next(drvop *) = 0; virtual void done(const drvop *, long rc, int err) = 0; virtual void fire(int kind, long id, long st, void *data) = 0;
    virtual void fill(long, u8 *b, size_t n) { memset(b, 0, n); } virtual void data(long, const u8 *, size_t) {} virtual void look(const u8 *) {} };
static Host *H;
extern "C" { int drvhost_next(drvop *o) { return H->next(o); } void drvhost_done(const drvop *o, long rc, int err) { H->done(o, rc, err); } void drvhost_fire(int k, long id, long st, void *d) { H->fire(k, id, st, d); }
    void drvhost_fill(long id, u8 *b, size_t n) { H->fill(id, b, n); } void drvhost_data(long id, const u8 *b, size_t n) { H->data(id, b, n); } void drvhost_look(const u8 *b) { H->look(b); } }

// ---------------------------------------------------------------- P22
static const char *T_OPS[] = {"treg", "treg", "treg", "tregd", "tcan", "treset", "treset", "ireg", "ireg", "ican", "nreg", "nreg", "nreg", "ncan", "ncan", "recv", "send", "close", "pair", "sleep", "done", "intr"};
static void rnd_op(Item &o, Rng &r, int nt, int ni, int nf, bool top) {
    string k = T_OPS[r.below(sizeof T_OPS / sizeof *T_OPS)]; if (top && (k == "done" || k == "intr") && r.chance(0.8)) k = "treg"; o.set("op", k);
    static const i64 us[] = {0, 1, 400, 999, 1000, 1001, 3000, 20000, 20000, 20001, 150000, 1000000, 60000000LL, 86400LL * 30 * 1000000LL};
    if (k == "treg" || k == "tregd") o.set("id", (i64)r.below(nt)).set("us", us[r.below(r.chance(0.1) ? 14 : 11)] + (r.chance(0.3) ? r.range(0, 5000) : 0));
    if (k == "tregd" && r.chance(0.06)) o.set("huge", (i64)r.below(7));        // longer than anything a clock can hold
    else if (k == "tcan" || k == "treset") o.set("id", (i64)r.below(nt)); else if (k == "ireg") o.set("id", (i64)r.below(ni)).set("prio", r.chance(0.5) ? r.range(0, 31) : r.range(0, 2)); else if (k == "ican") o.set("id", (i64)r.below(ni));
    else if (k == "sleep") o.set("us", r.chance(0.5) ? r.range(0, 3000) : r.range(0, 100000)); else o.set("fd", (i64)r.below(2 * nf)).set("dir", (i64)r.below(2)).set("n", r.chance(0.5) ? 100000 : r.range(1, 5000));
    if (r.chance(0.04)) o.set("mf", r.range(1, 3));
}
static void gen_p22(Plan &p, Rng &r, bool th) {
    net_params(p, r, false); p.p.setf("p_yield", 0.02); if (r.chance(0.3)) p.p.setf("p_eintr", 0.1); p.p.set("unixbuf", r.chance(0.5) ? 8192 : 20000);
    int nt = (int)r.range(1, r.chance(0.2) ? 60 : 8), ni = (int)r.range(1, 8), nf = (int)r.range(1, r.chance(0.2) ? 24 : 5); p.p.set("nf", nf); int prog = (int)r.range(3, th ? 120 : 60); bool many = r.chance(0.25);
    if (many) for (int i = 0; i < nt; i++) p.add("top").set("op", "treg").set("id", i).set("us", r.range(0, 60) * 1000 + (r.chance(0.3) ? r.range(0, 999) : 0));
    if (r.chance(0.25)) { nt = std::max(nt, (int)r.range(6, 50)); int n = (int)r.range(nt, 4 * nt); for (int i = 0; i < n; i++) { Item &o = p.add("top"); double x = r.unit(); o.set("op", x < 0.5 ? "treg" : x < 0.75 ? "tcan" : "treset").set("id", (i64)r.below(nt)); if (x < 0.5) o.set("us", r.range(0, 60) * 1000); else if (r.chance(0.1)) o.set("op", "sleep").set("us", r.range(0, 4000)); } }    // many timers, set, cancelled and reset
    if (r.chance(0.3)) for (int i = 0; i < 2 * nf; i++) p.add("top").set("op", "nreg").set("fd", i).set("dir", (i64)r.below(2));
    for (int i = 0; i < prog; i++) { Item &o = p.add("top"); if (r.chance(0.35)) o.set("op", r.chance(0.8) ? "run" : "spin"); else rnd_op(o, r, nt, ni, nf, true); }
    int cbs = (int)r.range(0, th ? 120 : 60); for (int i = 0; i < cbs; i++) { Item &o = p.add("cb"); o.set("nth", r.range(0, 40)); if (r.chance(0.08)) o.set("op", "ret").set("rc", r.chance(0.5) ? -1 : r.range(1, 1000)); else rnd_op(o, r, nt, ni, nf, false); }
    bool busy = r.chance(0.3); if (busy) { // descriptors used the way connections use them: both directions waited for, each callback uses its descriptor and waits again
        for (int i = 0; i < 2 * nf; i++) { if (r.chance(0.6)) p.add("top").set("op", "send").set("fd", i).set("n", 100000); for (int d = 0; d < 2; d++) if (r.chance(0.8)) p.add("top").set("op", "nreg").set("fd", i).set("dir", d); }
        for (int i = 0; i < 40; i++) { if (r.chance(0.2)) continue; if (r.chance(0.8)) p.add("cb").set("nth", i).set("op", "use").set("self", 1).set("n", 100000); if (r.chance(0.8)) p.add("cb").set("nth", i).set("op", "nreg").set("self", 1); } for (int i = 0; i < 10; i++) p.add("top").set("op", "run"); }
    int ex = (int)r.range(0, busy ? 30 : 12); for (int i = 0; i < ex; i++) { static const char *E[] = {"feed", "feed", "drain", "fclose", "sig", "jump"}; p.add("ext").set("at", r.range(0, 300)).set("what", E[r.below(6)]).set("fd", (i64)r.below(2 * nf)).set("n", r.range(1, 9000)); }
    if (r.chance(0.3)) p.p.set("sighand", 1);
}
struct EvHost : Host {
    struct Tm { bool reg = false; i64 lo = 0, hi = 0, orig = 0, slop = 0; bool never() const { return orig >= NEVER; } }; static const i64 NEVER = 1LL << 60; struct Im { bool reg = false; int prio = 0; u64 seq = 0; }; struct Nd { bool reg = false, was = false; i64 since = -1, reg_at = -1; };
    map<long, Tm> T; map<long, Im> I; map<long, Nd> N; // N key: fd*2+dir
    vector<int> fdslot; vector<Item> top; map<i64, vector<Item>> cbs; size_t tp = 0; i64 ncb = 0; int depth = 0; size_t cp = 0; i64 cur_cb = -1; long cur_key = -1; i64 ret = 0; bool running = false, spinning = false, stopped = false, draining = false, doneflag = false, runnable_at_entry = false; i64 want_rc = 0; int intr = 0, intr_cb = 0; i64 fired_in_run = 0; bool mf_on = false, eintr_seen = false; i64 lastact = 0, last_poll = -1, op_t0 = 0; i64 nruns = 0, budget = 0; bool cur_skip = false; u64 faults_fired = 0; bool finished = false; u64 gen = 0; i64 fired_total = 0;
    EvHost(World &w) : Host(w) {}
    SockP sock(int fd) { return fd >= 0 && (size_t)fd < p->fds.size() && p->fds[fd].f && p->fds[fd].f->sock() ? std::static_pointer_cast<Sock>(p->fds[fd].f) : nullptr; }
    bool ready(long key) { SockP s = sock((int)(key >> 1)); if (!s) return false; int m = s->pollmask(); return (key & 1) ? m & (POLLOUT | POLLHUP | POLLERR) : m & (POLLIN | POLLHUP | POLLERR); }
    void upd() { for (auto &n : N) { if (ready(n.first)) { if (n.second.since < 0) n.second.since = sim->now; if (n.second.reg) n.second.was = true; } else n.second.since = -1; } }
    bool any_imm() { for (auto &i : I) if (i.second.reg) return true; return false; }
    i64 due() { i64 d = -1; auto m = [&](i64 t) { if (d < 0 || t < d) d = t; }; for (auto &i : I) if (i.second.reg) m(0); for (auto &n : N) if (n.second.reg && n.second.since >= 0) m(std::max(n.second.since, n.second.reg_at)); for (auto &t : T) if (t.second.reg && !t.second.never()) m(t.second.hi + (t.second.orig >= 2147483LL * SEC ? 650 * MS : 0)); return d; }   // (a wait of more than 24 days is rounded up to poll's longest)
    bool anything() { if (any_imm()) return true; for (auto &n : N) if (n.second.reg) return true; for (auto &t : T) if (t.second.reg && !t.second.never()) return true; return false; }
    void watch() { u64 g = ++gen; if (!running || depth || eintr_seen) return; i64 d = due(); if (d < 0) return; i64 at = std::max(d, lastact) + 3 * MS + 200 * US; sim->at(std::max(at, sim->now), [this, g] { if (g != gen || !running || !p->alive) return; upd(); i64 d = due(); if (d >= 0 && sim->now - std::max(d, lastact) >= 3 * MS && !eintr_seen) { string what; for (auto &t : T) if (t.second.reg && t.second.hi < sim->now - 2 * MS) what = fmt("timer %ld is overdue by %.3f ms", t.first, (sim->now - t.second.hi) / 1e6); for (auto &n : N) if (n.second.reg && n.second.since >= 0) what = fmt("descriptor %ld is ready for %s", n.first >> 1, n.first & 1 ? "writing" : "reading"); if (any_imm()) what = "an immediate event is registered"; w.v(fmt("the event loop sleeps although %s", what.c_str())); } else watch(); }); }
    bool live() { if (any_imm()) return true; for (auto &n : N) if (n.second.reg && ready(n.first)) return true; for (auto &t : T) if (t.second.reg && !t.second.never()) return true; return false; }
    void act() { lastact = sim->now; upd(); watch(); }
    void skip() { cur_skip = true; }
    bool emit(drvop *o, const Item &it) {      // false: not applicable now
        string k = it.s("op"); long id = it.n("id"), fd = -1; int fs = (int)it.n("fd"); if ((size_t)fs < fdslot.size()) fd = fdslot[fs]; long dir = it.n("dir"); if (it.has("self")) { if (!depth || cur_key < 0) return false; fd = cur_key >> 1; dir = cur_key & 1; if (k == "use") k = dir ? "send" : "recv"; } long key = fd * 2 + dir; o->b = it.n("us");
        if (k == "run" || k == "spin") { if (depth || !live()) return false; o->k = k == "run" ? K_RUN : K_SPIN; running = true; spinning = k == "spin"; stopped = false; want_rc = 0; fired_in_run = 0; doneflag = false; runnable_at_entry = due() >= 0 && due() <= sim->now; nruns++; if (intr) intr_cb = 1; sim->probe(k == "run" ? "loop_run" : "loop_spin"); }
        else if (k == "treg" || k == "tregd") { if (T[id].reg) return false; o->k = k == "treg" ? K_TREG : K_TREGD; o->a = id; o->f = (double)it.n("us") / 1e6; if (it.has("huge")) { static const double H[] = {1e12, 1e17, 9.2e18, 9.3e18, 1e19, 1e300, HUGE_VAL}; o->f = H[it.n("huge") % 7]; } }
        else if (k == "tcan") { if (!T[id].reg) return false; o->k = K_TCAN; o->a = id; } else if (k == "treset") { if (!T[id].reg) return false; o->k = K_TRESET; o->a = id; }
        else if (k == "ireg") { if (I[id].reg) return false; o->k = K_IREG; o->a = id; o->b = it.n("prio"); } else if (k == "ican") { if (!I[id].reg) return false; o->k = K_ICAN; o->a = id; }
        else if (k == "nreg") { if (fd < 0) return false; o->k = K_NREG; o->a = fd; o->b = dir; o->c = key; } else if (k == "ncan") { if (fd < 0) fd = 900 + fs; o->k = K_NCAN; o->a = fd; o->b = it.n("dir"); }
        else if (k == "pair") { if (fd >= 0) return false; o->k = K_PAIR; o->a = fs / 2 * 2; if (fdslot[fs ^ 1] >= 0) return false; } else if (k == "close") { if (fd < 0 || N[fd * 2].reg || N[fd * 2 + 1].reg) return false; o->k = K_CLOSE; o->a = fd; o->b = fs; }
        else if (k == "recv" || k == "send") { if (fd < 0) return false; o->k = k == "recv" ? K_RECV : K_SEND; o->a = fd; o->b = it.n("n"); }
        else if (k == "sleep") { o->k = K_SLEEP; o->a = it.n("us"); } else if (k == "done") { o->k = K_DONE; if (depth) doneflag = true; } else if (k == "intr") { o->k = K_INTR; intr = 1; intr_cb = 0; sim->probe("interrupt_requested"); } else if (k == "sigh") { o->k = K_SIGNAL; o->a = SIGUSR1; } else if (k == "ret") { ret = it.n("rc"); return false; } else return false;
        if (it.n("mf") && o->k != K_RUN && o->k != K_SPIN) { Fault f; f.proc = p->name; f.call = "malloc"; f.nth = (i64)p->n_malloc + it.n("mf"); f.err = ENOMEM; sim->faults.push_back(f); mf_on = true; }
        op_t0 = sim->now; return true;
    }
    bool next(drvop *o) override {
        upd(); lastact = sim->now; o->k = 0;
        for (;;) {
            if (depth) { auto &l = cbs[cur_cb]; if (!draining) while (cp < l.size()) { const Item &it = l[cp++]; if (emit(o, it)) return false; } if (spinning && !doneflag && !ret && !live()) { doneflag = true; o->k = K_DONE; return false; } depth = 0; o->a = ret; if (ret) { stopped = true; want_rc = ret; sim->probe("callback_failed"); } if (intr && !stopped) { stopped = true; } act(); return true; }
            if (!draining) { while (tp < top.size()) if (emit(o, top[tp++])) { watch(); return false; }
                draining = true; budget = 400; for (int fd : fdslot) if (SockP q = sock(fd)) q->do_shutdown(SHUT_RDWR); upd(); }
            for (auto &t : T) if (t.second.reg && t.second.never()) { Item it; it.set("op", "tcan").set("id", t.first); if (emit(o, it)) return false; }
            if (anything() && budget-- > 0) { Item it; it.set("op", "run"); if (emit(o, it)) { watch(); return false; } }
            if (anything()) w.v("events were still registered after the event loop ran 400 times");
            finished = true; o->a = 0; return true; }
    }
    void sig() { sim->signal_proc(p, SIGUSR1); }
    void done(const drvop *o, long rc, int err) override {
        upd(); bool mf = false; if (mf_on) { for (auto &f : sim->faults) if (f.used) mf = true; sim->faults.clear(); mf_on = false; if (mf) sim->probe("allocation_failed"); } i64 now = sim->now;
        auto fail = [&](const char *what) { if (rc == 0) return false; if (!mf) w.v(fmt("%s failed (errno %d)", what, err)); return true; };
        switch (o->k) {
            case K_RUN: case K_SPIN: running = false; gen++; 
                if (!mf) { if (rc != want_rc) w.v(fmt("%s returned %ld, %s", o->k == K_RUN ? "events_run()" : "events_spin()", rc, want_rc ? fmt("a callback returned %lld", (long long)want_rc).c_str() : "no callback failed")); else if (want_rc) sim->probe("failure_status_checked");
                    if (!rc && !fired_in_run && !intr && runnable_at_entry) w.v("events_run() returned without running a runnable event");
                    if (o->k == K_SPIN && !rc && !intr && !doneflag) w.v("events_spin() returned 0 before it was done"); }
                intr = 0; intr_cb = 0; stopped = false; spinning = false; break;
            case K_TREG: case K_TREGD: if (fail("registering a timer")) break; { Tm &t = T[o->a]; t.reg = true; t.orig = o->k == K_TREGD ? (o->f > 1e9 ? NEVER : (i64)(o->f * 1e6) * US) : o->b * US; if (t.never()) sim->probe("endless_timer"); t.slop = o->k == K_TREGD ? 2 * US : US; t.lo = op_t0 + t.orig; t.hi = now + t.orig; } break;
            case K_TCAN: T[o->a].reg = false; sim->probe("timer_cancelled"); break;
            case K_TRESET: if (fail("resetting a timer")) break; { Tm &t = T[o->a]; t.lo = op_t0 + t.orig; t.hi = now + t.orig; sim->probe("timer_reset"); } break;
            case K_IREG: if (fail("registering an immediate event")) break; I[o->a] = {true, (int)o->b, sim->seq}; break;
            case K_ICAN: I[o->a].reg = false; sim->probe("immediate_cancelled"); break;
            case K_NREG: { Nd &n = N[o->c]; if (n.reg) { if (rc == 0) w.v("a second registration for the same descriptor and direction was accepted"); else if (err != EEXIST && !mf) w.v(fmt("a second registration for the same descriptor and direction failed with errno %d", err)); sim->probe("duplicate_refused"); break; } if (fail("registering a network event")) break; n.reg = true; n.reg_at = now; n.was = ready(o->c); n.since = n.was ? now : -1; } break;
            case K_NCAN: { Nd &n = N[o->a * 2 + o->b]; if (!n.reg) { if (rc == 0) w.v("cancelling a registration which does not exist succeeded"); else if (err != ENOENT && !mf) w.v(fmt("cancelling a registration which does not exist failed with errno %d", err)); } else { if (rc && !mf) w.v(fmt("cancelling a network event failed (errno %d)", err)); if (rc == 0) n.reg = false; sim->probe("network_cancelled"); } } break;
            case K_PAIR: if (rc == 0) { fdslot[o->a] = (int)o->b; fdslot[o->a + 1] = (int)o->c; } break;
            case K_CLOSE: fdslot[o->b] = -1; if (cur_key >> 1 == o->a) cur_key = -1; N.erase(o->a * 2); N.erase(o->a * 2 + 1); break;
        }
        act();
    }
    void fire(int kind, long id, long, void *) override {
        upd(); i64 now = sim->now;
        if (kind == F_SIGNAL) { intr = 1; intr_cb = depth ? 0 : 1; if (depth) {} sim->probe("interrupted_by_signal"); lastact = now; return; }
        static const char *K[] = {"timer", "immediate event", "network event"}; string nm = fmt("%s %ld", K[kind], kind == F_NET ? id >> 1 : id);
        if (!running || depth) w.v(fmt("the callback of %s ran outside the event loop", nm.c_str()));
        if (stopped) { if (want_rc) w.v(fmt("the callback of %s ran after another callback had failed", nm.c_str())); else w.v(fmt("the callback of %s ran after the loop was told to stop", nm.c_str())); }
        else if (intr) { if (intr_cb <= 0) w.v(fmt("the callback of %s ran after the loop was told to stop", nm.c_str())); intr_cb--; }
        fired_in_run++; fired_total++;
        if (kind == F_TIMER) { Tm &t = T[id]; if (!t.reg) w.v(fmt("%s fired although it was %s", nm.c_str(), "cancelled, had fired before or was never set")); else { if (now + t.slop < t.lo) w.v(fmt("%s fired %.3f ms early", nm.c_str(), (t.lo - now) / 1e6)); for (auto &o : T) if (o.second.reg && o.first != id && o.second.hi + o.second.slop + US < t.lo) { w.v(fmt("%s fired before timer %ld, which was due %.3f ms earlier", nm.c_str(), o.first, (t.lo - o.second.hi) / 1e6)); break; } }
            for (auto &n : N) if (n.second.reg && n.second.since >= 0 && n.second.since < last_poll && n.second.reg_at < last_poll) { w.v(fmt("%s fired before the ready descriptor %ld was served", nm.c_str(), n.first >> 1)); break; }
            t.reg = false; sim->probe("timer_fired"); }
        else if (kind == F_IMM) { Im &t = I[id]; if (!t.reg) w.v(fmt("%s ran although it was not registered", nm.c_str())); for (auto &o : I) if (o.second.reg && o.first != id && o.second.prio < t.prio) { w.v(fmt("%s of priority %d ran before one of priority %d", nm.c_str(), t.prio, o.second.prio)); break; } t.reg = false; sim->probe("immediate_ran"); }
        else { Nd &n = N[id]; if (!n.reg) w.v(fmt("%s (%s) fired although it was cancelled, had fired before or was never registered", nm.c_str(), id & 1 ? "write" : "read")); else if (!n.was && !ready(id)) w.v(fmt("%s (%s) fired although the descriptor is not ready", nm.c_str(), id & 1 ? "write" : "read")); n.reg = false; n.was = false; sim->probe("network_fired"); }
        if (kind != F_IMM && any_imm()) w.v(fmt("%s fired while an immediate event was waiting", nm.c_str()));
        depth = 1; cur_cb = ncb++; cur_key = kind == F_NET ? id : -1; cp = 0; ret = 0; lastact = now; gen++;
        if (w.plan.p.n("dbg")) sim->log("fire %s", nm.c_str());
    }
};
static void spawn_drv(World &w, Host &h) { H = &h; w.may_exit.insert("drv"); h.p = w.spawn("drv", "drv", {}); }
static void run_p22(World &w) {
    Item &p = w.plan.p; EvHost h(w); int nf = (int)p.n("nf", 1); h.fdslot.assign(2 * nf, -1); for (int i = 0; i < nf; i++) { Item it; it.kind = "top"; it.set("op", "pair").set("fd", 2 * i); h.top.push_back(it); }
    if (p.n("sighand")) { Item it; it.set("op", "sigh"); h.top.push_back(it); } h.eintr_seen = p.f("p_eintr", 0) > 0;
    for (auto &i : w.plan.items) { if (i.kind == "top") h.top.push_back(i); else if (i.kind == "cb") h.cbs[i.n("nth")].push_back(i); }
    auto old = sim->on_call; sim->on_call = [&, old](Process *q, const string &c) { old(q, c); if (q == h.p && c == "poll") { h.upd(); h.last_poll = sim->now; } };
    spawn_drv(w, h);
    for (auto &i : w.plan.items) if (i.kind == "ext") { Item it = i; w.at_ms(i.n("at"), [&, it] { if (!h.p->alive || h.draining) return; string k = it.s("what"); if (k == "jump") { sim->real_off += (it.n("n") - 4500) * SEC; sim->fire("wall_clock_jump"); return; } int fs = (int)it.n("fd"); if (k == "sig") { if (!h.p->sighand.count(SIGUSR1) || !h.running) return; h.sig(); return; } int fd = h.fdslot[fs]; SockP s = fd >= 0 ? h.sock(fd) : nullptr; if (!s || !s->flow) return; SockP q = s->flow->end[1 - s->side].lock(); if (!q) return; h.upd();
        if (k == "feed") { string x((size_t)it.n("n"), 'f'); q->do_write(x.data(), x.size(), 0); } else if (k == "drain") { static char b[65536]; q->do_read(b, (size_t)it.n("n")); } else q->do_shutdown(SHUT_WR); sim->fire("peer_" + k); h.upd(); h.watch(); }); }
    sim->run(400LL * 86400 * SEC, [&] { return !h.p->alive; });
    sim->faults.clear();
    w.check_procs(); if (!sim->viol.empty()) return;
    if (h.p->alive && h.running && h.due() < 0) { sim->probe("nothing_left_to_wait_for"); return; }
    if (h.p->alive) { w.v(h.running ? "the event loop sleeps for ever although events can happen" : "the driver did not finish"); return; }
    if (h.p->marks["exit_live_blocks"]) w.v(fmt("%lld memory block(s) were left behind by the event loop", (long long)h.p->marks["exit_live_blocks"])); else sim->probe("nothing_left_behind");
    if (h.fired_total) sim->probe("programs_with_events");
}

// ---------------------------------------------------------------- P23
static void gen_p23(Plan &p, Rng &r, bool th) {
    net_params(p, r, true); if (r.chance(0.2)) p.p.setf("p_eagain", 0.3); if (p.p.n("segmax") < 50 && r.chance(0.5)) p.p.set("segmax", 536); if (r.chance(0.5)) p.p.set("unixbuf", r.range(1000, 9000));
    p.p.set("npair", r.range(0, 4)).set("nlst", r.range(0, 2)).set("nraw", r.range(0, 6)); int ns = (int)r.range(1, 3);
    static const char *B[] = {"good", "good", "own", "own", "refused", "refused", "drop", "drop", "rst", "unreach", "netunreach", "late_rst", "slow", "imm", "err"};
    for (int i = 0; i < ns; i++) { string l; int n = (int)r.range(1, 5); for (int j = 0; j < n; j++) { string b = B[r.below(15)]; if (b == "imm" || b == "err") { static const int E[] = {ETIMEDOUT, ENETUNREACH, EHOSTUNREACH, EACCES, EPERM, EADDRNOTAVAIL, ECONNABORTED, ENETDOWN, EHOSTDOWN, ENOBUFS, EADDRINUSE, EAFNOSUPPORT, EIO}; int e = E[r.below(13)]; b = b == "imm" ? fmt("imm:%d", e) : fmt("err:%d:%d", e, (int)r.range(0, 300)); } if (b == "slow") b = fmt("slow:%d", (int)r.range(1, 400)); l += (j ? "," : "") + b; } p.add("sas").set("list", l); }
    static const char *O[] = {"read", "read", "read", "read", "write", "write", "write", "write", "readcan", "writecan", "nbinit", "nbwait", "nbwait", "nbwait", "nbwait", "nbcan", "nbconsume", "nbconsume", "nbfree", "accept", "accept", "acceptcan", "connect", "connect", "connect", "connectcan", "close", "shut", "dup", "reuse"};
    static const i64 L[] = {1, 2, 7, 100, 1000, 4096, 4097, 20000}; int n = (int)r.range(20, th ? 500 : 250); double pbrk = r.chance(0.5) ? 0.3 : 0.6; bool faulty = r.chance(0.5);
    for (int i = 0; i < n; i++) { if (r.chance(pbrk)) { p.add("op").set("op", "brk").set("us", r.chance(0.5) ? r.range(0, 20) * 1000 : r.range(0, 3000)); continue; }
        Item &o = p.add("op"); string k = O[r.below(30)]; if (i < 8 && r.chance(0.5)) k = r.chance(0.5) ? "connect" : "accept"; o.set("op", k).set("e", (i64)r.below(1000));
        if (k == "read" || k == "write" || k == "nbwait" || k == "reuse") { i64 len = r.chance(0.5) ? L[r.below(8)] : r.range(1, 6000), m = r.chance(0.3) ? len : r.chance(0.4) ? 1 : r.range(1, len); o.set("len", len).set("min", m); }
        else if (k == "nbconsume") { o.set("len", r.chance(0.5) ? 1000000 : r.range(0, 5000)); } else if (k == "connect") { o.set("sas", (i64)r.below(ns)); double x = r.unit(); if (x < 0.4) o.set("timeo", r.range(100, 1500) * 1000); else if (x < 0.6) o.set("bind", 1); }
        if (faulty && r.chance(0.04)) o.set("mf", r.range(1, 3)); else if (faulty && r.chance(0.004)) o.set("mfr", r.range(1, 6));
        if (faulty && r.chance(0.06)) { static const struct { const char *c; int e; } F[] = {{"recv", ECONNRESET}, {"recv", ETIMEDOUT}, {"recv", ENOBUFS}, {"recv", EINTR}, {"recv", EAGAIN}, {"send", EPIPE}, {"send", ECONNRESET}, {"send", ENOBUFS}, {"send", EINTR}, {"send", EAGAIN}, {"accept", ECONNABORTED}, {"accept", EINTR}, {"accept", EAGAIN}, {"accept", EMFILE}, {"accept", ENFILE}, {"connect", ECONNREFUSED}, {"connect", ENETUNREACH}, {"socket", EMFILE}, {"getsockopt", ENOBUFS}, {"fcntl", EINVAL}}; auto &f = F[r.below(20)]; o.set("fc", f.c).set("fe", f.e).set("fn", r.range(1, 3)); }
    }
    int ex = (int)r.range(2, th ? 60 : 40); for (int i = 0; i < ex; i++) { static const char *E[] = {"feed", "feed", "feed", "feed", "drain", "drain", "drain", "fclose", "rst"}; Item &o = p.add("ext"); o.set("at", r.chance(0.5) ? r.range(0, 200) : r.range(0, 1500)).set("what", E[r.below(9)]).set("e", (i64)r.below(1000)).set("n", r.chance(0.3) ? L[r.below(8)] : r.range(1, 9000)); if (r.chance(0.5)) o.set("at", o.n("at")).set("us", r.range(0, 999)); }
}
struct AioHost : Host {
    struct Op { bool on = false; i64 len = 0, min = 0; u64 start = 0; bool other = false, busy = false; };
    struct Ep { bool used = false, listener = false, adopted = false; int fd = -1; SockP s; Op rd, wr, acc; bool nb = false, nbw = false, eof = false; i64 nbneed = 0; u64 nbpos = 0, nbin = 0, nbstart = 0; bool nblost = false, nbask = false; i64 nbexpect = -1, nbexpect2 = -1; string name; };
    struct Con { bool on = false; size_t sas = 0; i64 t0 = 0, timeo = 0; bool bind = false; };
    vector<Ep> E; map<long, Con> C; vector<vector<string>> addrs; vector<vector<string>> kinds; vector<Item> ops; size_t op = 0, setup = 0; int npair = 0, nlst = 0; deque<drvop> pend; vector<string> names; bool running = false, draining = false, finished = false, tick = false, loop_failed = false, mf_on = false, eintr = false; int depth = 0, dphase = 0; i64 lastact = 0, t_drain = 0, next_us = 1000; u64 gen = 0; size_t base_fds = 0; i64 budget = 0; long cnext = 0; i64 naccepted = 0; map<long, Item> cur; bool hard = false; set<Sock *> seen; map<Sock *, i64> since; string sstore; i64 nfired = 0; bool nbpeekall = false; size_t extra_fds = 0;
    i64 tol = 4 * MS;      // a sender learns of new room one network latency later
    AioHost(World &w) : Host(w) { E.reserve(200); tol += (w.plan.p.n("lat") + w.plan.p.n("jit")) * US; }
    static int cid(Flow *f, int side) { return (int)((f->id * 2 + side) & 0xffffff) + 1; }
    bool hardfault() { if (!hard) for (auto &f : sim->faults) if (f.used && f.err != EINTR && f.err != EAGAIN && f.err != ECONNABORTED) { hard = true; sim->probe("hard_fault"); } return hard; }
    u64 consumed(Ep &e) { return e.s->rx_total - e.s->rxsize(); }
    SockP sock(int fd) { return fd >= 0 && (size_t)fd < p->fds.size() && p->fds[fd].f && p->fds[fd].f->sock() ? std::static_pointer_cast<Sock>(p->fds[fd].f) : nullptr; }
    size_t nfds() { size_t n = 0; for (auto &f : p->fds) if (f.f) n++; return n; }
    Ep &add(int fd, const char *how) { size_t i = 0; while (i < E.size() && E[i].used) i++; if (i == E.size()) E.emplace_back(); Ep &e = E[i]; e = Ep(); e.used = true; e.fd = fd; e.s = sock(fd); e.name = fmt("%s %d", how, fd); return e; }
    long idx(Ep &e) { return &e - &E[0]; }
    Ep *pick(i64 n, function<bool(Ep &)> ok) { vector<Ep *> v; for (auto &e : E) if (e.used && ok(e)) v.push_back(&e); return v.empty() ? nullptr : v[(size_t)n % v.size()]; }
    bool wants_r(Ep &e) { return e.rd.on || e.nbw || e.acc.on; }
    // a descriptor an operation waits for, ready since when?
    i64 due() { i64 d = -1; for (auto &e : E) if (e.used && e.s) { int m = e.s->pollmask(); bool r = wants_r(e) && (m & (POLLIN | POLLHUP | POLLERR)), w = e.wr.on && (m & (POLLOUT | POLLHUP | POLLERR)); if (r || w) { auto i = since.find(e.s.get()); if (i == since.end()) i = since.insert({e.s.get(), sim->now}).first; if (d < 0 || i->second < d) d = i->second; } else since.erase(e.s.get()); }
        for (auto &c : C) if (c.second.on && c.second.timeo) { i64 lim = c.second.t0 + (i64)addrs[c.second.sas].size() * (c.second.timeo + 3 * MS); if (d < 0 || lim < d) d = lim; } return d; }
    void watch() { u64 g = ++gen; if (!running || depth || eintr) return; i64 d = due(); if (d < 0) return; sim->at(std::max(std::max(d, lastact) + tol, sim->now), [this, g] { if (g != gen || !running || depth || !p->alive) return; i64 d = due(); if (d >= 0 && sim->now - std::max(d, lastact) >= tol - US) { string what; for (auto &c : C) if (c.second.on && c.second.timeo && sim->now > c.second.t0 + (i64)addrs[c.second.sas].size() * (c.second.timeo + 3 * MS)) what = "a connection attempt ran out of time"; for (auto &e : E) if (e.used && e.s) { int m = e.s->pollmask(); if (wants_r(e) && (m & (POLLIN | POLLHUP | POLLERR))) what = fmt("%s has input for the pending %s", e.name.c_str(), e.acc.on ? "accept" : e.nbw ? "buffered read" : "read"); else if (e.wr.on && (m & (POLLOUT | POLLHUP | POLLERR))) what = fmt("%s has room for the pending write", e.name.c_str()); } if (!what.empty()) w.v("nothing happens although " + what); } else watch(); }); }
    void act() { lastact = sim->now; due(); watch(); }
    void push(int k, long a = 0, long b = 0, long c = 0, long d = 0, const char *s = nullptr) { drvop o; memset(&o, 0, sizeof o); o.k = k; o.a = a; o.b = b; o.c = c; o.d = d; o.s = s; pend.push_back(o); }
    void fds() { if (!pend.empty() || mf_on || setup < 1) return; size_t n = nfds(), lo = base_fds, hi; for (auto &e : E) lo += e.used; hi = lo; for (auto &c : C) hi += c.second.on; if (n < lo || n > hi) w.v(fmt("%zu descriptors are open where %zu to %zu should be", n, lo, hi)); }
    bool emit(const Item &it) {
        string k = it.s("op"); i64 n = it.n("e"), len = it.n("len", 1), mn = it.n("min", 1); Ep *e = nullptr;
        auto conn = [](Ep &e) { return !e.listener; };
        if (k == "read") { if (!(e = pick(n, [&](Ep &e) { return conn(e) && !e.nb && !e.rd.on; }))) return false; e->rd = {false, len, mn, consumed(*e)}; push(K_READ, idx(*e), e->fd, len, mn); }
        else if (k == "write") { if (!(e = pick(n, [&](Ep &e) { return conn(e) && !e.wr.on; }))) return false; e->wr = {false, len, mn, e->s->tx_total}; push(K_WRITE, idx(*e), e->fd, len, mn); }
        else if (k == "readcan" || k == "reuse") { if (!(e = pick(n, [&](Ep &e) { return e.rd.on; }))) return false; push(K_READCAN, idx(*e)); if (k == "reuse") { e->rd.on = false; e->rd = {false, len, mn, consumed(*e)}; push(K_READ, idx(*e), e->fd, len, mn); sim->probe("cancelled_and_reused"); } }
        else if (k == "writecan") { if (!(e = pick(n, [&](Ep &e) { return e.wr.on; }))) return false; push(K_WRITECAN, idx(*e)); }
        else if (k == "nbinit") { if (!(e = pick(n, [&](Ep &e) { return conn(e) && !e.nb && !e.rd.on; }))) return false; push(K_NBINIT, idx(*e), e->fd); }
        else if (k == "nbwait") { if (!(e = pick(n, [&](Ep &e) { return e.nb && !e.nbw; }))) return false; e->nbneed = len; push(K_NBWAIT, idx(*e), len); }
        else if (k == "nbcan") { if (!(e = pick(n, [&](Ep &e) { return e.nbw; }))) return false; push(K_NBCAN, idx(*e)); push(K_NBPEEK, idx(*e)); e->nbask = true; }
        else if (k == "nbconsume") { if (!(e = pick(n, [&](Ep &e) { return e.nb && !e.nbw; }))) return false; i64 have = (i64)(e->nbin - e->nbpos); push(K_NBCONSUME, idx(*e), std::min(len, have)); push(K_NBPEEK, idx(*e)); }
        else if (k == "nbfree") { if (!(e = pick(n, [&](Ep &e) { return e.nb && !e.nbw; }))) return false; push(K_NBFREE, idx(*e)); }
        else if (k == "accept") { if (!(e = pick(n, [&](Ep &e) { return e.listener && !e.acc.on; }))) return false; push(K_ACCEPT, idx(*e), e->fd); }
        else if (k == "acceptcan") { if (!(e = pick(n, [&](Ep &e) { return e.acc.on; }))) return false; push(K_ACCEPTCAN, idx(*e)); }
        else if (k == "connect") { if (addrs.empty()) return false; size_t act = 0; for (auto &c : C) act += c.second.on; if (act >= 12 || E.size() > 100) return false; long id = 0; while (C.count(id) && C[id].on) id++; size_t s = (size_t)it.n("sas") % addrs.size(); Con c; c.sas = s; c.timeo = it.n("timeo") * US; c.bind = it.n("bind"); C[id] = c; if (id != (long)s) {}
            // each attempt has its own copy of the address list (slot id); slot 100 holds the address to bind to
            push(K_SAS, id, 0, 0, 0, names[s].c_str()); push(K_CONNECT, id, it.has("timeo") ? it.n("timeo") : -1, it.n("bind") ? 100 : -1); }
        else if (k == "connectcan") { vector<long> v; for (auto &c : C) if (c.second.on) v.push_back(c.first); if (v.empty()) return false; push(K_CONNECTCAN, v[(size_t)n % v.size()]); }
        else if (k == "close") { if (!(e = pick(n, [&](Ep &e) { return conn(e) && !e.nb && !e.rd.on && !e.wr.on; }))) return false; push(K_CLOSE, idx(*e), e->fd); pend.back().a = e->fd; pend.back().b = idx(*e); }
        else if (k == "shut") { if (!(e = pick(n, [&](Ep &e) { return conn(e) && !e.wr.on; }))) return false; e->s->do_shutdown(SHUT_WR); return false; }
        else if (k == "dup") { if (!(e = pick(n, [&](Ep &e) { return e.rd.on; }))) return false; push(K_READ, 150, e->fd, len, mn); }
        else return false;
        auto arm = [&](const char *c, i64 nth, int err) { Fault f; f.proc = p->name; f.call = c; f.nth = nth; f.err = err; sim->faults.push_back(f); };
        if (it.n("mf")) { arm("malloc", (i64)p->n_malloc + it.n("mf"), ENOMEM); mf_on = true; } if (it.n("mfr")) arm("malloc", (i64)p->n_malloc + 8 + it.n("mfr"), ENOMEM);
        if (it.has("fc")) arm(it.s("fc").c_str(), (i64)p->ncalls[it.s("fc")] + it.n("fn"), (int)it.n("fe"));
        return true;
    }
    bool pop(drvop *o) { if (pend.empty()) return false; *o = pend.front(); pend.pop_front(); return true; }
    bool busy() { for (auto &e : E) if (e.used && (e.rd.on || e.wr.on || e.nbw)) return true; for (auto &c : C) if (c.second.on) return true; return false; }
    bool next(drvop *o) override {
        lastact = sim->now; o->k = 0; hardfault();
        if (w.plan.p.n("dbg")) sim->log("next depth=%d op=%zu pend=%zu", depth, op, pend.size());
        if (pop(o)) { pre(o); return false; }
        fds();
        while (!draining && !loop_failed && op < ops.size()) { const Item &it = ops[op++]; if (it.s("op") == "brk") { next_us = it.n("us"); goto leave; } if (emit(it) && pop(o)) { pre(o); return false; } }
    leave:
        if (depth) { depth = 0; o->a = 0; act(); return true; }
        if (loop_failed) { finished = true; o->a = 0; return true; }
        if (!draining && op < ops.size()) { if (!tick) { push(K_TREG, 0, next_us); tick = true; pop(o); return false; } o->k = K_RUN; running = true; act(); return false; }
        if (!draining) { draining = true; t_drain = sim->now; budget = 3000; for (auto &e : E) if (e.used && !e.listener && e.s) e.s->do_shutdown(SHUT_RDWR); }
        if (dphase == 0) { for (auto &c : C) if (c.second.on && !c.second.timeo) { bool drop = false; for (auto &k : kinds[c.second.sas]) if (k == "drop" || k == "own") drop = true; if (drop || sim->now - t_drain > 3 * SEC) { if (!drop && !hardfault()) w.v("a connection attempt to addresses which answer was never completed"); push(K_CONNECTCAN, c.first); pop(o); pre(o); return false; } }
            if (busy() && budget-- > 0 && sim->now < t_drain + 30 * SEC) { if (!tick) { push(K_TREG, 0, 20000); tick = true; pop(o); return false; } o->k = K_RUN; running = true; act(); return false; }
            for (auto &e : E) if (e.used && (e.rd.on || e.wr.on || e.nbw)) w.v(fmt("the %s on %s was never completed", e.rd.on ? "read" : e.wr.on ? "write" : "buffered read", e.name.c_str())); for (auto &c : C) if (c.second.on) w.v("a connection attempt was never completed");
            sim->probe("all_operations_completed"); dphase = 1;
            for (auto &e : E) if (e.used) { long i = idx(e); if (e.acc.on) { push(K_ACCEPTCAN, i); } if (e.nb) push(K_NBFREE, i); push(K_CLOSE, e.fd, i); } if (tick) push(K_TCAN, 0); for (auto &c : C) push(K_SASFREE, c.first); push(K_SASFREE, 100); push(K_FREEBUFS); if (pop(o)) { pre(o); return false; } }
        finished = true; o->a = 0; return true;
    }
    void pre(drvop *o) { if (o->k == K_CONNECT) C[o->a].t0 = sim->now; if (o->k == K_WRITE) { E[o->a].wr.start = E[o->a].s->tx_total; E[o->a].wr.busy = true; } if (o->k == K_NBWAIT) E[o->a].nbstart = consumed(E[o->a]); }
    void fill(long id, u8 *b, size_t n) override { Ep &e = E[id]; string x; fill_content(x, cid(e.s->flow.get(), e.s->side), e.s->tx_total, n); memcpy(b, x.data(), n); }
    void check(Ep &e, u64 off, const u8 *b, size_t n, const char *what) { string x; fill_content(x, cid(e.s->flow.get(), 1 - e.s->side), off, n); if (memcmp(b, x.data(), n)) { size_t i = 0; while (b[i] == (u8)x[i]) i++; w.v(fmt("%s on %s delivered wrong data at offset %llu (byte %zu of %zu)", what, e.name.c_str(), (unsigned long long)(off + i), i, n)); } }
    void data(long id, const u8 *b, size_t n) override { Ep &e = E[id]; if (e.nblost) return; 
        // after an interrupted wait the bytes read so far may be kept or (with the wait) dropped
        if (e.nbask) { e.nbask = false; u64 part = e.s->reset ? 0 : consumed(e) - e.nbstart, have = e.nbin - e.nbpos; if (n == have + part) { e.nbin += part; } else if (n == have) { if (part) e.nblost = true; } else if (!e.s->reset) w.v(fmt("a buffered reader holds %zu bytes, %llu or %llu expected", n, (unsigned long long)have, (unsigned long long)(have + part))); else { e.nblost = true; } }
        else if (n != e.nbin - e.nbpos) w.v(fmt("a buffered reader holds %zu bytes, %llu expected", n, (unsigned long long)(e.nbin - e.nbpos)));
        check(e, e.nbpos, b, n, "the buffered reader"); }
    void done(const drvop *o, long rc, int err) override {
        bool mf = false; if (mf_on && pend.empty()) { for (auto &f : sim->faults) if (f.call == "malloc" && f.used) mf = true; if (mf) sim->probe("allocation_failed"); vector<Fault> keep; for (auto &f : sim->faults) if (f.call != "malloc") keep.push_back(f); sim->faults = {keep.begin(), keep.end()}; mf_on = false; } else if (mf_on) for (auto &f : sim->faults) if (f.call == "malloc" && f.used) mf = true;
        bool hf = hardfault();
        auto bad = [&](const char *what) { if (rc == 0) return false; if (!mf && !hf) w.v(fmt("%s failed (errno %d)", what, err)); return true; };
        switch (o->k) {
            case K_RUN: running = false; gen++; if (rc) { if (!hf && !mf) w.v(fmt("events_run() returned %ld although no callback failed", rc)); else { loop_failed = true; sim->probe("loop_failed_by_fault"); } } break;
            case K_TREG: if (bad("a timer")) tick = false; break; case K_TCAN: tick = false; break;
            case K_PAIR: if (rc == 0) { add((int)o->b, "pair"); add((int)o->c, "pair"); } break;
            case K_LISTEN: if (rc >= 0) { Ep &e = add((int)rc, "listener"); e.listener = true; push(K_NONBLOCK, rc); } break;
            case K_SAS: if (o->a == 100) { extra_fds = 0; base_fds = nfds(); for (auto &e : E) base_fds -= e.used; } if (rc && !mf && !hf) w.v("the names of the addresses did not resolve"); if (rc && o->a != 100) { for (size_t i = 0; i < pend.size();) if (pend[i].k == K_CONNECT && pend[i].a == o->a) pend.erase(pend.begin() + i); else i++; } if (o->a == 100) setup = 1; break;
            case K_READ: if (o->a == 150) { if (rc == 0) w.v("a second read on a descriptor with a pending read was accepted"); else if (err != EEXIST && !mf && !hf) w.v(fmt("a second read on a descriptor with a pending read failed with errno %d", err)); sim->probe("duplicate_refused"); break; } if (!bad("starting a read")) { E[o->a].rd.on = true; E[o->a].rd.start = consumed(E[o->a]); } break;
            case K_WRITE: E[o->a].wr.busy = false; if (!bad("starting a write")) E[o->a].wr.on = true; break;
            case K_READCAN: E[o->a].rd.on = false; sim->probe("read_cancelled"); break; case K_WRITECAN: E[o->a].wr.on = false; sim->probe("write_cancelled"); break;
            case K_ACCEPT: if (!bad("starting an accept")) E[o->a].acc.on = true; break; case K_ACCEPTCAN: E[o->a].acc.on = false; sim->probe("accept_cancelled"); break;
            case K_CONNECT: if (!bad("starting a connection")) C[o->a].on = true; break; case K_CONNECTCAN: C[o->a].on = false; sim->probe("connect_cancelled"); break;
            case K_NBINIT: if (!bad("creating a buffered reader")) { Ep &e = E[o->a]; e.nb = true; e.nbw = false; e.nbpos = e.nbin = consumed(e); e.nblost = false; e.eof = false; e.nbask = false; } break;
            case K_NBWAIT: if (!bad("starting a buffered read")) { E[o->a].nbw = true; } break;
            case K_NBCAN: E[o->a].nbw = false; sim->probe("wait_cancelled"); break;
            case K_NBCONSUME: E[o->a].nbpos += (u64)o->b; break;
            case K_NBFREE: E[o->a].nb = false; break;
            case K_CLOSE: since.erase(E[o->b].s.get()); E[o->b] = Ep(); if (rc) w.v(fmt("closing a descriptor failed (errno %d)", err)); break;
        }
        act();
    }
    void fire(int kind, long id, long st, void *d) override {
        lastact = sim->now; gen++; nfired++; bool hf = hardfault(); if (!running || depth) w.v("a completion callback ran outside the event loop"); depth = 1;
        if (w.plan.p.n("dbg")) sim->log("fire kind=%d id=%ld st=%ld", kind, id, st);
        if (kind == F_TIMER) { tick = false; return; }
        if (kind == F_CONNECT) { Con &c = C[id]; if (!c.on) { w.v("a connection callback ran twice or after its cancellation"); return; } c.on = false; auto &a = addrs[c.sas]; auto &k = kinds[c.sas];
            if (st < 0) { if (!hf) for (auto &x : k) if (x == "good" || (x.compare(0, 4, "slow") == 0 && (!c.timeo || atoi(x.c_str() + 5) * MS < c.timeo - 50 * MS))) { w.v("a connection attempt failed although one of its addresses accepts connections"); break; } sim->probe("connect_failed"); return; }
            SockP s = sock((int)st); if (!s || s->st != Sock::S_EST || s->side != 0 || !s->flow || !s->flow->established) { w.v(fmt("a connection attempt reported success with a descriptor (%ld) which is not connected", st)); return; }
            if (std::find(a.begin(), a.end(), s->flow->dst) == a.end()) w.v("a connection attempt connected to " + s->flow->dst + ", which was not asked for"); if (!s->nonblock) w.v("a connected socket is not non-blocking"); for (auto &e : E) if (e.used && e.fd == (int)st) w.v("a connection attempt returned a descriptor already in use");
            if (c.bind && s->flow->init_bound.find("10.9.9.9") == string::npos) w.v("a connection was not bound to the address asked for (" + s->flow->init_bound + ")"); else if (c.bind) sim->probe("bound_source_checked"); add((int)st, "connection"); sim->probe("connected"); return; }
        Ep &e = E[id]; Op *o = kind == F_READ ? &e.rd : kind == F_WRITE ? &e.wr : &e.acc; const char *nm = kind == F_READ ? "read" : kind == F_WRITE ? "write" : kind == F_ACCEPT ? "accept" : "buffered read";
        if (kind == F_NETBUF ? !e.nbw : !o->on) { w.v(fmt("the %s callback of descriptor %d ran twice or after its cancellation", nm, e.fd)); return; }
        if (kind == F_ACCEPT) { o->on = false; if (st < 0) { if (!hf) w.v("an accept failed although nothing failed"); else sim->probe("accept_failed"); return; } SockP s = sock((int)st); if (!s || s->side != 1 || !s->flow || s->flow->dst != e.s->local) { w.v(fmt("an accept returned a descriptor (%ld) which is not a new connection", st)); return; } if (!seen.insert(s.get()).second) w.v("a connection was accepted twice"); add((int)st, "accepted"); naccepted++; s->nonblock = true; sim->probe("accepted"); return; }
        bool gone = e.s->reset || e.s->rx_fin || e.s->rx_shut;
        if (kind == F_READ) { o->on = false;
            if (st > 0) { if (st < o->min || st > o->len) w.v(fmt("a read of %lld to %lld bytes ended with %ld", (long long)o->min, (long long)o->len, st)); else { if (!e.s->reset && consumed(e) - o->start != (u64)st) w.v(fmt("a read reported %ld bytes, %llu were taken from the socket", st, (unsigned long long)(consumed(e) - o->start))); check(e, o->start, (const u8 *)d, (size_t)st, "a read"); sim->probe("read_completed"); } }
            else if (st == 0) { if (!gone || (e.s->rxsize() && !e.s->rx_shut)) w.v(fmt("a read on %s reported end-of-file although there is none", e.name.c_str())); sim->probe("read_eof"); }
            else { if (st != -1) w.v(fmt("a read ended with status %ld", st)); if (!e.s->reset && !hf) w.v(fmt("a read on %s reported an error although there is none", e.name.c_str())); sim->probe("read_error"); } }
        else if (kind == F_WRITE) { o->on = false;
            if (st > 0) { if (st < o->min || st > o->len) w.v(fmt("a write of %lld to %lld bytes ended with %ld", (long long)o->min, (long long)o->len, st)); else if (e.s->tx_total - o->start != (u64)st) w.v(fmt("a write reported %ld bytes, the socket took %llu", st, (unsigned long long)(e.s->tx_total - o->start))); else sim->probe("write_completed"); }
            else { if (st != -1) w.v(fmt("a write ended with status %ld", st)); SockP q = e.s->flow ? e.s->flow->end[1 - e.s->side].lock() : nullptr; if (!hf && !e.s->reset && !e.s->tx_shut && q && !q->app_closed) w.v(fmt("a write on %s reported an error although there is none", e.name.c_str())); sim->probe("write_error"); } }
        else { e.nbw = false; u64 part = e.s->reset ? 0 : consumed(e) - e.nbstart;
            if (st == 0) { if (e.s->reset) part = (u64)std::max<i64>(0, e.nbneed - (i64)(e.nbin - e.nbpos)); e.nbin += part; if (e.nbin - e.nbpos < (u64)e.nbneed && !e.nblost) w.v(fmt("a buffered read of %lld bytes succeeded with %llu", (long long)e.nbneed, (unsigned long long)(e.nbin - e.nbpos))); if (e.s->reset) e.nblost = true; else sim->probe("wait_completed"); }
            else { e.nbask = true; if (st == 1) { if (!gone) w.v(fmt("a buffered read on %s reported end-of-file although there is none", e.name.c_str())); sim->probe("wait_eof"); } else { if (st != -1) w.v(fmt("a buffered read ended with status %ld", st)); if (!e.s->reset && !hf) w.v(fmt("a buffered read on %s reported an error although there is none", e.name.c_str())); sim->probe("wait_error"); } }
            drvop q; memset(&q, 0, sizeof q); q.k = K_NBPEEK; q.a = id; pend.push_front(q); }
    }
};
static void run_p23(World &w) {
    Item &p = w.plan.p; AioHost h(w); w.allow_raw = true; h.eintr = false; for (auto &i : w.plan.items) if (i.kind == "op") h.ops.push_back(i);
    for (int i = 0; i < p.n("npair"); i++) h.push(K_PAIR, 0); h.nlst = (int)p.n("nlst"); static const char *LS[] = {"[10.0.1.1]:9000", "[10.0.1.2]:9000"}; for (int i = 0; i < h.nlst; i++) h.push(K_LISTEN, 200, 0, 0, 0, LS[i]);
    w.raw_server("10.0.2.1:9000", [](RawPeer *r, int) { r->noread = true; });
    int ns = 0; for (auto &i : w.plan.items) if (i.kind == "sas") { vector<string> a, k; int j = 0; for (auto &b : splitw(i.s("list"), ',')) { string ip = fmt("10.0.%d.%d", 10 + ns, 1 + j), kd = b; j++; if (b == "good") ip = "10.0.2.1"; if (b == "own") { if (!h.nlst) kd = "refused"; else ip = fmt("10.0.1.%d", 1 + j % h.nlst); } string full = ip + ":9000"; if (kd != "good" && kd != "own" && kd != "refused") { sim->blackhole[full] = kd; if (kd.compare(0, 4, "slow") == 0) w.raw_server(full, [](RawPeer *r, int) { r->noread = true; }); } a.push_back(full); k.push_back(kd); w.dns_tab[fmt("tgt%d.example", ns)].push_back(ip); } h.addrs.push_back(a); h.kinds.push_back(k); h.names.push_back(fmt("tgt%d.example:9000", ns)); ns++; }
    h.push(K_SAS, 100, 0, 0, 0, "[10.9.9.9]:0");
    spawn_drv(w, h);
    for (int i = 0; i < p.n("nraw") && h.nlst; i++) w.raw(fmt("10.0.1.%d:9000", 1 + i % h.nlst), 5 + i * 13, [](RawPeer *r) { r->noread = true; });
    for (auto &i : w.plan.items) if (i.kind == "ext") { Item it = i; sim->at(i.n("at") * MS + i.n("us") * US, [&, it] { if (!h.p->alive || h.draining) return; string k = it.s("what"); AioHost::Ep *e = h.pick(it.n("e"), [](AioHost::Ep &e) { return !e.listener && e.s && e.s->flow && e.s->flow->established; }); if (!e) return; SockP q = e->s->flow->end[1 - e->s->side].lock(); if (!q) return; AioHost::Ep *o = nullptr; for (auto &x : h.E) if (x.used && x.s == q) o = &x;
        if (k == "feed") { if (o && (o->wr.on || o->wr.busy)) return; string x; fill_content(x, AioHost::cid(q->flow.get(), q->side), q->tx_total, (size_t)it.n("n")); q->do_write(x.data(), x.size(), 0); }
        else if (k == "drain") { if (o && (o->rd.on || o->nb)) return; string x((size_t)it.n("n"), 0); u64 off = q->rx_total - q->rxsize(); bool rs = q->reset; ssize_t n = q->do_read(&x[0], x.size()); if (n > 0 && !rs) { string y; fill_content(y, AioHost::cid(q->flow.get(), 1 - q->side), off, (size_t)n); if (memcmp(x.data(), y.data(), (size_t)n)) w.v("data written asynchronously arrived altered"); sim->probe("written_data_checked"); } }
        else if (k == "fclose") q->do_shutdown(SHUT_WR); else { if (q->flow->local_unix || q->flow->src == "socketpair") return; q->flow->emit_rst(0); q->flow->emit_rst(1); }
        sim->fire("peer_" + k); h.watch(); }); }
    { auto old = sim->on_call; sim->on_call = [&, old](Process *q, const string &c) { old(q, c); if (q == h.p && c == "poll") h.watch(); }; }
    sim->run(3600 * SEC, [&] { return !h.p->alive; });
    sim->faults.clear(); w.check_procs(); if (!sim->viol.empty()) return;
    if (h.p->alive) { w.v(h.running ? "the event loop sleeps for ever" : "the driver did not finish"); return; }
    if (h.loop_failed) return;
    if (h.p->marks["exit_live_blocks"]) w.v(fmt("%lld memory block(s) were left behind by the operations", (long long)h.p->marks["exit_live_blocks"])); else if (h.nfired) sim->probe("nothing_left_behind");
}

// ---------------------------------------------------------------- P24
static void gen_p24(Plan &p, Rng &r, bool th) {
    net_params(p, r, false); p.p.setf("p_yield", r.chance(0.3) ? 0.02 : r.chance(0.5) ? 0.3 : 0.7); if (r.chance(0.6)) p.p.setf("p_spur", r.chance(0.5) ? 0.2 : 0.6); if (r.chance(0.3)) p.p.setf("p_eintr", 0.1);
    int nn = (int)r.range(1, 6); for (int i = 0; i < nn; i++) { Item &o = p.add("name").set("n", r.range(1, 4)); double x = r.unit(); if (x < 0.3) o.set("n", 0).set("err", -(i64)r.range(2, 4)); o.set("delay", r.chance(0.4) ? 0 : r.chance(0.7) ? r.range(0, 5000) : r.range(0, 400000)); }
    int n = (int)r.range(5, th ? 200 : 80), nd = (int)r.range(1, 3); bool faulty = r.chance(0.4); double wt = r.unit();
    for (int i = 0; i < n; i++) { Item &o = p.add("op"); double x = r.unit();
        if (x < 0.25) { o.set("op", "brk").set("us", r.chance(0.5) ? r.range(0, 3000) : r.range(0, 60000)); continue; } if (x < 0.32) { o.set("op", "nap").set("us", r.chance(0.5) ? r.range(0, 200) : r.range(0, 10000)); continue; }
        if (r.unit() < wt) { static const char *O[] = {"spawn", "resolve", "resolve", "resolve", "resolve", "kill", "oneshot", "oneshot"}; o.set("op", O[r.below(8)]).set("d", (i64)r.below(nd)).set("name", (i64)r.below(nn)); } else o.set("op", r.chance(0.6) ? "pcb" : "join").set("d", (i64)r.below(100)).set("arg", r.range(0, 0xfffff));
        if (faulty && r.chance(0.08)) { if (r.chance(0.5)) o.set("mf", r.range(1, 5)); else { static const struct { const char *c; int e; } F[] = {{"pthread_create", EAGAIN}, {"mutex_init", ENOMEM}, {"mutex_init", EAGAIN}, {"cond_init", ENOMEM}, {"socketpair", EMFILE}}; auto &f = F[r.below(5)]; o.set("fc", f.c).set("fe", f.e); } }
    }
    int t = (int)r.range(0, 20); for (int i = 0; i < t; i++) p.add("thr").set("us", r.chance(0.5) ? 0 : r.range(0, 20000));
}
struct ThrHost : Host {
    struct Req { string name; size_t ni = 0; int slot = -1; int st = 0; i64 t = 0; }; // st 0 waiting, 1 answered, 2 its requester was stopped, 3 refused
    struct Th { int calls = 0; long arg = 0; int made = 0; bool joined = false, finished = false; i64 slot = 0; };
    map<long, Req> R; map<long, Th> H_; struct Dn { bool on = false; long cur = -1; }; map<long, Dn> D; vector<Item> ops, thr; size_t op = 0, tp = 0; deque<drvop> pend; vector<string> names; vector<vector<string>> want; vector<i64> delay; bool running = false, tick = false, draining = false, mf_on = false, faulted = false, loop_failed = false; int depth = 0; i64 next_us = 1000; long nreq = 0, nth = 0; i64 budget = 4000; i64 t_op = 0; int maint = 0; map<int, int> tdepth; int dphase = 0; bool busy_at_kill = false; map<long, long> slot2th;
    ThrHost(World &w) : Host(w) {}
    void push(int k, long a = 0, long b = 0, long c = 0, const char *s = nullptr) { drvop o; memset(&o, 0, sizeof o); o.k = k; o.a = a; o.b = b; o.c = c; o.s = s; pend.push_back(o); }
    bool emit(const Item &it) { string k = it.s("op"); long d = it.n("d"); size_t nm = names.empty() ? 0 : (size_t)it.n("name") % names.size();
        if (k == "nap") push(K_SLEEP, it.n("us")); else if (k == "spawn") { if (D[d].on) return false; push(K_DSPAWN, d); }
        else if (k == "resolve" || k == "oneshot") { if (k == "resolve" && !D[d].on) { push(K_DSPAWN, d); if (it.n("mf") || it.has("fc")) goto arm; } { long c = nreq++; Req q; q.name = names[nm]; q.ni = nm; q.slot = k == "resolve" ? (int)d : -1; q.st = 3; R[c] = q; push(k == "resolve" ? K_DRESOLVE : K_DONESHOT, d, c, 0, names[nm].c_str()); } }
        else if (k == "kill") { if (!D[d].on) return false; push(K_DKILL, d); }
        else if (k == "pcb") { if (nth >= 200) return false; long i = nth++; Th t; t.arg = i | (it.n("arg") << 16); t.slot = i; H_[i] = t; push(K_PCB, i, t.arg); }
        else if (k == "join") { vector<long> v; for (auto &t : H_) if (t.second.made == 1 && !t.second.joined) v.push_back(t.first); if (v.empty()) return false; push(K_PJOIN, v[(size_t)d % v.size()]); }
        else return false;
    arm: if (it.n("mf")) { Fault f; f.proc = p->name; f.call = "malloc"; f.nth = (i64)p->n_malloc + it.n("mf"); f.err = ENOMEM; sim->faults.push_back(f); mf_on = true; }
        if (it.has("fc")) { Fault f; f.proc = p->name; f.call = it.s("fc"); f.nth = (i64)p->ncalls[f.call] + 1; f.err = (int)it.n("fe"); sim->faults.push_back(f); mf_on = true; }
        return true; }
    bool pop(drvop *o) { if (pend.empty()) return false; *o = pend.front(); pend.pop_front(); t_op = sim->now; if (o->k == K_DKILL) { Dn &d = D[o->a]; busy_at_kill = d.cur >= 0; if (d.cur >= 0) { R[d.cur].st = 2; sim->probe("killed_with_request_pending"); d.cur = -1; } else sim->probe("killed_idle"); d.on = false; }
        if (o->k == K_DRESOLVE || o->k == K_DONESHOT) { R[o->b].t = sim->now; R[o->b].st = 0; } return true; }
    bool waiting() { for (auto &q : R) if (q.second.st == 0) return true; return false; }
    bool next(drvop *o) override {
        o->k = 0; int tid = cur_fiber()->tid;
        if (tid != maint) { int &d = tdepth[tid]; if (d++ == 0 && tp < thr.size()) { o->k = K_SLEEP; o->a = thr[tp++].n("us"); return false; } o->a = 0; for (auto &t : H_) if (t.second.calls && t.second.slot == -tid) t.second.finished = true; return true; }
        if (pop(o)) return false;
        while (!draining && !loop_failed && op < ops.size()) { const Item &it = ops[op++]; if (it.s("op") == "brk") { next_us = it.n("us"); goto leave; } if (emit(it) && pop(o)) return false; }
    leave:
        if (depth) { depth = 0; o->a = 0; return true; }
        if (loop_failed) { o->a = 0; return true; }
        if (!draining && op < ops.size()) { if (!tick) { push(K_TREG, 0, next_us); tick = true; pop(o); return false; } o->k = K_RUN; running = true; return false; }
        draining = true;
        if (dphase == 0) { if (waiting() && budget-- > 0) { if (!tick) { push(K_TREG, 0, 20000); tick = true; pop(o); return false; } o->k = K_RUN; running = true; return false; }
            for (auto &q : R) if (q.second.st == 0) w.v(fmt("an accepted request to resolve %s was never answered", q.second.name.c_str())); dphase = 1;
            for (auto &d : D) if (d.second.on) push(K_DKILL, d.first); for (auto &t : H_) if (t.second.made == 1 && !t.second.joined) push(K_PJOIN, t.first); if (tick) push(K_TCAN, 0); push(K_SLEEP, 2000000); if (pop(o)) return false; }
        // let the loop run once more: a registration left behind by a stopped requester would show
        if (dphase == 1) { dphase = 2; push(K_TREG, 0, 1000); pop(o); tick = true; return false; } if (dphase == 2) { dphase = 3; o->k = K_RUN; running = true; return false; }
        o->a = 0; return true;
    }
    void done(const drvop *o, long rc, int err) override {
        if (cur_fiber()->tid != maint) return; bool mf = false; if (mf_on) { for (auto &f : sim->faults) if (f.used) mf = true; if (mf) { faulted = true; sim->probe("failed_resource"); } if (pend.empty() || mf) { sim->faults.clear(); mf_on = false; } }
        switch (o->k) {
            case K_RUN: running = false; if (rc) { if (!faulted) w.v(fmt("events_run() returned %ld although nothing failed", rc)); loop_failed = true; } break;
            case K_TREG: if (rc) tick = false; break; case K_TCAN: tick = false; break;
            case K_DSPAWN: if (rc == 0) D[o->a] = Dn{true, -1}; else { if (!mf) w.v(fmt("starting a resolver thread failed (errno %d)", err)); for (size_t i = 0; i < pend.size();) if (pend[i].k == K_DRESOLVE) pend.erase(pend.begin() + i); else i++; } break;
            case K_DRESOLVE: { Req &q = R[o->b]; Dn &d = D[o->a]; if (rc) { q.st = 3; if (!mf) w.v(fmt("a request to resolve a name failed (errno %d)", err)); break; } if (d.cur >= 0) { q.st = 3; if (err != EALREADY) w.v("a request was accepted while another one was pending"); sim->probe("overlap_refused"); } else if (err == EALREADY) { q.st = 3; w.v("a request was refused although none was pending"); } else d.cur = o->b; break; }
            case K_DONESHOT: { Req &q = R[o->b]; if (rc) { q.st = 3; if (!mf) w.v(fmt("a single request to resolve a name failed (errno %d)", err)); } break; }
            case K_DKILL: if (rc) w.v("stopping a resolver thread failed"); if (busy_at_kill && sim->now - t_op > 5 * MS) w.v(fmt("stopping a resolver thread which was busy took %.3f ms", (sim->now - t_op) / 1e6)); break;
            case K_PCB: { Th &t = H_[o->a]; if (rc == 0) { t.made = 1; if (!t.calls) sim->probe("routine_starts_later"); } else { t.made = 2; if (!mf) w.v(fmt("starting a thread failed (%ld)", rc)); sim->probe("thread_start_failed"); if (t.calls) w.v("starting a thread failed although its routine runs"); } break; }
            case K_PJOIN: { Th &t = H_[o->a]; t.joined = true; if (rc) w.v(fmt("joining a thread failed (%ld)", rc)); else if (o->b != (t.arg ^ 0x5a5a)) w.v(fmt("a joined thread returned %#lx instead of %#lx", o->b, t.arg ^ 0x5a5a)); if (t.calls != 1) w.v(fmt("the routine of a thread ran %d times before it was joined", t.calls)); sim->probe("joined"); break; }
        }
    }
    void fire(int kind, long id, long st, void *d) override {
        if (kind == F_THREAD) { Th &t = H_[id]; t.calls++; if (t.arg != st) w.v("a thread's routine was called with another argument"); if (t.calls > 1) w.v("a thread's routine was called twice"); if (t.made == 2) w.v("starting a thread failed although its routine runs"); sim->probe("routine_ran"); return; }
        if (!running || depth) w.v("a callback ran outside the event loop"); depth = 1;
        if (kind == F_TIMER) { tick = false; return; }
        if (cur_fiber()->tid != maint) w.v("a resolver callback ran in another thread");
        auto i = R.find(id); if (i == R.end()) { w.v("a resolver callback ran for an unknown request"); return; } Req &q = i->second;
        if (q.st) { w.v(fmt("the request to resolve %s was answered %s", q.name.c_str(), q.st == 1 ? "twice" : q.st == 2 ? "although its thread had been stopped" : "although it was refused")); return; }
        q.st = 1; if (q.slot >= 0) { Dn &dn = D[q.slot]; if (dn.cur != id) w.v("an answer was delivered for another request than the pending one"); dn.cur = -1; }
        string got = (char *)d, exp; for (auto &x : want[q.ni]) exp += x + " "; bool unk = got.find('?') != string::npos; if (want[q.ni].empty() ? st > 0 : (!unk && (got != exp && !(faulted && st < 0)))) w.v(fmt("the request to resolve %s was answered with \"%s\", expected \"%s\"", q.name.c_str(), got.c_str(), exp.c_str())); sim->probe(st < 0 ? "resolution_failure_delivered" : "answer_delivered");
        if (sim->now < q.t + delay[q.ni]) w.v("a name was answered before it was resolved");
    }
};
static void run_p24(World &w) {
    Item &p = w.plan.p; ThrHost h(w); i64 maxd = 0; for (auto &i : w.plan.items) { if (i.kind == "op") h.ops.push_back(i); if (i.kind == "thr") h.thr.push_back(i); if (i.kind == "name") { int k = (int)h.names.size(); string nm = fmt("n%d.example", k); vector<string> a, ex; for (int j = 0; j < i.n("n"); j++) { a.push_back(fmt("10.%d.0.%d", k + 1, j + 1)); ex.push_back(fmt("[%s]:%d", a.back().c_str(), 1000 + k)); } w.dns_tab[nm] = a; if (i.has("err")) w.dns_err[nm] = (int)i.n("err"); w.dns_delay[nm] = i.n("delay") * US; h.names.push_back(nm + fmt(":%d", 1000 + k)); h.want.push_back(ex); h.delay.push_back(0); maxd = std::max(maxd, i.n("delay") * US); } }
    if (h.names.empty()) { h.names.push_back("[10.1.0.1]:1000"); h.want.push_back({"[10.1.0.1]:1000"}); h.delay.push_back(0); }
    spawn_drv(w, h); h.maint = h.p->mainf->tid;
    sim->run(3600 * SEC, [&] { return !h.p->alive; });
    sim->faults.clear(); w.check_procs(); if (!sim->viol.empty()) return;
    if (h.p->alive) { w.v(h.running ? "the event loop sleeps for ever" : "the program is stuck: its threads wait for each other"); return; }
    if (h.loop_failed) return;
    if (h.p->marks["exit_live_blocks"] ) w.v(fmt("%lld memory block(s) were left behind by the threads", (long long)h.p->marks["exit_live_blocks"])); else sim->probe("nothing_left_behind");
    if (h.p->marks["exit_threads"] > 0) w.v(fmt("%lld thread(s) were still running long after they had been stopped", (long long)h.p->marks["exit_threads"]));
    if (h.p->marks["exit_unjoined"]) w.v(fmt("%lld ended thread(s) were neither joined nor detached", (long long)h.p->marks["exit_unjoined"]));
    if (h.p->marks["exit_live_fds"] > 3) w.v(fmt("%lld descriptors were left behind by the threads", (long long)h.p->marks["exit_live_fds"] - 3));
    if (h.p->marks["exit_sync"] > 0) w.v(fmt("%lld mutex(es) or condition variable(s) were left behind by the threads", (long long)h.p->marks["exit_sync"]));
}

extern const PropDef props7[] = {{"P22", gen_p22, run_p22}, {"P23", gen_p23, run_p23}, {"P24", gen_p24, run_p24}, {nullptr, nullptr, nullptr}};
