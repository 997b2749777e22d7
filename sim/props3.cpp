// P08 P09 P10 P11: time limits, connection limit, isolation, graceful shutdown
#include "props.h"

// Holds back (part of) the handshake of a flow in one direction: bytes from `from` on are
// released `hold` after the connection was established, all at once or evenly spread.
struct HsHold : Mitm {
    int dir; i64 hold; size_t from; bool trickle; size_t seen[2] = {0, 0}; string buf; bool released = false, sched = false; Flow *fl = nullptr; bool fin_pending = false, dead = false;
    static const size_t HSB = 320;
    HsHold(int dir, i64 hold, size_t from, bool trickle) : dir(dir), hold(hold), from(from), trickle(trickle) {}
    void data(Flow *f, int d, const string &s) override {
        if (d != dir || released) { f->emit(d, s); return; }
        if (!sched) { sched = true; fl = f; sim->fire(trickle ? "handshake_trickled" : hold < 0 ? "handshake_withheld" : "handshake_delayed"); auto w = f->weak_from_this();
            if (hold >= 0) { if (!trickle) sim->at(f->t_start + hold, [this, w] { if (auto q = w.lock()) { out(q.get(), buf.size()); released = true; if (fin_pending) q->emit_fin(dir); } });
                else for (size_t i = from; i < HSB; i++) sim->at(f->t_start + hold * (i64)(i + 1 - from) / (i64)(HSB - from), [this, w, i] { if (auto q = w.lock()) { out(q.get(), 1); if (i == HSB - 1) { out(q.get(), buf.size()); released = true; if (fin_pending) q->emit_fin(dir); } } }); } }
        string x = s; if (seen[d] < from) { size_t n = std::min(x.size(), from - seen[d]); seen[d] += n; f->emit(d, x.substr(0, n)); x.erase(0, n); }
        buf += x; owe_out(f);
    }
    size_t owed = 0;
    void out(Flow *f, size_t n) { owed += n; owe_out(f); }
    void owe_out(Flow *f) { size_t n = std::min(owed, buf.size()); if (!n || dead) return; owed -= n; f->emit(dir, buf.substr(0, n)); buf.erase(0, n); }
    void fin(Flow *f, int d) override { if (d == dir && !released && !buf.empty()) { dead = true; buf.clear(); } if (d == dir && !released && !dead && hold >= 0 && sched) { fin_pending = true; return; } f->emit_fin(d); }
};

// ---------------------------------------------------------------- P08
static void gen_p08(Plan &p, Rng &r, bool) {
    net_params(p, r, r.chance(0.4)); if (p.p.n("segmax") < 50) p.p.set("segmax", 100);
    static const char *O[] = {"0.5", "1", "2", "3.5", "5", "8", "12.25", "30", ""}; string oe = O[r.below(9)], od = O[r.below(9)];
    static const char *BIG[] = {"inf", "infinity", "1e300", "1e19", "9.3e18", "1e12", "3e9", "4294967296", "2147483648", "1e17"}; if (r.chance(0.06)) (r.chance(0.5) ? oe : od) = BIG[r.below(10)]; if (r.chance(0.02)) oe = od = BIG[r.below(10)];
    auto num = [](const string &o) { double x = o.empty() ? 5.0 : atof(o.c_str()); return x > 1e9 ? 2e8 : x; };
    string f = r.chance(0.6) ? "-f" : ""; auto fl = [&](const string &o) { string x = f; if (!o.empty()) x += (x.empty() ? "" : "_") + string("-o_") + o; return x; };
    p.p.set("eflags", fl(oe)).set("dflags", fl(od)).setf("oe", num(oe)).setf("od", num(od));
    if (r.chance(0.3)) p.p.set("tn", r.range(4, 2000));
    int n = (int)r.range(1, 6); i64 t = 0; double m = std::min(num(oe), num(od)); if (m > 1e6) m = 20; bool big = num(oe) > 1e6 || num(od) > 1e6;
    for (int i = 0; i < n; i++) {
        Item &c = simple_conn(p, r, i + 1, t, r.range(4, 3000), r.range(4, 3000)); t += r.chance(0.5) ? 0 : r.range(0, (i64)(m * 1500));
        auto frac = [&](double o) -> i64 { static const double F[] = {0.1, 0.4, 0.7, 0.75, 1.3, 1.6, 3, -1}; double x = F[r.below(8)]; if (x < 0 && big) x = 0.5; if (o > 1e6) o = 20; return x < 0 ? -1 : (i64)(x * o * 1000); };
        if (r.chance(0.45)) { c.set("hs", frac(m)).set("hdir", (i64)r.below(2)).set("hfrom", r.chance(0.4) ? 0 : r.range(0, 319)).set("htr", (i64)r.chance(0.5)); }
        if (r.chance(0.3)) c.set("ts", frac(num(od)));
        if (r.chance(0.3)) c.set("cs", frac(num(oe)));
        if (r.chance(0.15)) to_spipe(c);
        // long idle periods once established
        if (r.chance(0.4)) { c.set("chunk", 1000).set("gap", r.range(1, 4000) * 1000000); if (r.chance(0.5)) c.set("d_chunk", 1000).set("d_gap", r.range(1, 4000) * 1000000); }
        if (r.chance(0.2)) c.set("findelay", r.range(60000, 8000000));
        if (r.chance(0.2)) c.set("d_findelay", r.range(60000, 8000000));
        if (r.chance(0.2)) c.set("d_stop", r.range(0, 100)).set("d_resume", r.range(60000, 3000000));
        if (r.chance(0.08)) { bool up = r.chance(0.5) || c.kind == "spipe"; p.p.set("sockbuf", r.range(2500, 9000)).set("unixbuf", r.range(4000, 9000)); for (auto k : {"gap", "d_gap", "d_stop", "d_resume"}) c.kv.erase(k); c.set(up ? "n" : "d_n", r.range(40000, 80000)).set(up ? "chunk" : "d_chunk", 4096).set(up ? "d_stop" : "stop", r.range(0, 2000)).set(up ? "d_resume" : "resume", r.range(60000, 3000000)).set(up ? "d_rdsize" : "rdsize", 9000); }      // established and stuck with the whole path full
    }
    if (r.chance(0.3)) p.add("clockjump").set("at", 1000 + r.range(0, 8000)).set("by", r.chance(0.5) ? r.range(1, 100000) : -r.range(1, 100000));
}
static void run_p08(World &w) {
    Item &p = w.plan.p; i64 oe = (i64)(p.f("oe", 5) * SEC), od = (i64)(p.f("od", 5) * SEC); const i64 SLACK = 500 * MS, EPS = 2 * MS;
    auto old = sim->on_flow; map<Flow *, App *> twire;         // daemon-side connect to the target, by client
    map<App *, Flow *> tflow; map<u64, i64> t_est; vector<Flow *> estd;
    sim->on_flow_est = [&](Flow *f) { t_est[f->id] = sim->now; };
    sim->on_flow = [&, old](Flow *f) { old(f);
        if (f->dst == w.d_addr) { App *c = w.client_of(f); if (!c) return; i64 cs = c->sc.n("cs", 0); if (cs < 0) f->behav = "drop"; else if (cs > 0) f->behav = fmt("slow:%lld", (long long)cs);
            if (c->sc.has("hs")) { i64 h = c->sc.n("hs"); f->mitm = make_shared<HsHold>((int)c->sc.n("hdir"), h < 0 ? -1 : std::max<i64>(cs, 0) * MS + h * MS, (size_t)c->sc.n("hfrom"), c->sc.n("htr")); } }
        else if (f->dst == w.t_addr && f->init_proc) { auto i = w.parent.find(f->id); Flow *wf = i == w.parent.end() ? nullptr : w.flow_by_id(i->second); App *c = wf ? w.client_of(wf) : nullptr; if (!c) return; tflow[c] = f; i64 ts = c->sc.n("ts", 0); if (ts < 0) f->behav = "drop"; else if (ts > 0) f->behav = fmt("slow:%lld", (long long)ts); }
    };
    start_tunnel(w); w.common_items();
    for (auto &i : w.plan.items) { Item it = i; if (i.kind == "conn") w.at_ms(1000 + i.n("at"), [&w, it] { w.client(it, w.e_addr); }); else if (i.kind == "spipe") w.at_ms(1000 + i.n("at"), [&w, it, &p] { w.spipe(it, w.flags(p.s("eflags"))); }); }
    run_until_done(w, 60000);
    w.check_procs();
    for (auto c : w.clients) {
        i64 cs = c->sc.n("cs", 0), ts = c->sc.n("ts", 0), hs = c->sc.has("hs") ? c->sc.n("hs") : 0; const i64 NV = 1LL << 60; bool sp = c->spipe_proc != nullptr;
        cs = cs < 0 ? NV : cs * MS; ts = ts < 0 ? NV : ts * MS; hs = hs < 0 ? NV : hs * MS;
        Flow *f = nullptr; for (auto x : w.wire) if (w.client_of(x) == c) f = x;
        if (!f) { w.v(fmt("connection %d never led to a connect", c->id)); continue; }
        string nm = fmt("connection %d (connect %s, handshake %s, target connect %s)", c->id, cs == NV ? "never" : fmt("%.3fs", cs / 1e9).c_str(), hs == NV ? "never" : fmt("%.3fs", hs / 1e9).c_str(), ts == NV ? "never" : fmt("%.3fs", ts / 1e9).c_str());
        i64 start_e = sp ? f->t_start : (w.t_accept.count(c->flow_id) ? w.t_accept[c->flow_id] : -1);
        if (start_e < 0) { w.v(nm + ": was never accepted"); continue; }
        if (c->rxn == 0 && c->eof == false && !c->over()) { w.v(nm + ": neither served nor dropped"); continue; }
        auto window = [&](const char *who, i64 t, i64 due) {
            if (t < 0) { w.v(fmt("%s: %s kept it beyond its time limit (due %.3f s)", nm.c_str(), who, due / 1e9)); return; }
            if (t < due - EPS) w.v(fmt("%s: %s dropped it %.3f s before its time limit", nm.c_str(), who, (due - t) / 1e9));
            if (t > due + SLACK) w.v(fmt("%s: %s dropped it %.3f s after its time limit", nm.c_str(), who, (t - due) / 1e9));
        };
        auto died = [&](i64 due) { // the client side must see the end
            i64 te = c->t_eof >= 0 ? c->t_eof : c->t_end; if (te < 0 || te > due + SLACK + 2 * SEC) w.v(fmt("%s: its application was not told soon after the time limit", nm.c_str()));
            if (sp && c->spipe_proc->alive) w.v(nm + ": the client program is still running"); else if (sp && c->spipe_proc->status == 0 && !c->spipe_proc->termsig) w.v(nm + ": the client program reported success"); };
        if (cs > oe) { sim->probe("connect_limit_checked"); window(sp ? "client" : "encrypting daemon", f->t_end[0], start_e + oe); died(start_e + oe); continue; }
        i64 te = t_est.count(f->id) ? t_est[f->id] : -1, td = w.t_accept.count(f->id) ? w.t_accept[f->id] : -1;
        if (te < 0 || td < 0) { w.v(nm + ": not connected though the connect finished within the limit"); continue; }
        // how long each end is kept from finishing its handshake (the server needs only the client's messages, which need only the server's nonce)
        bool hd1 = c->sc.n("hdir") == 1, tr = c->sc.n("htr"); i64 from = c->sc.n("hfrom"), hsd = hs; if (hd1 && c->sc.has("hs")) hsd = from >= 32 ? 0 : hs == NV ? NV : tr ? hs * (32 - from) / (320 - from) : hs;
        auto close_to = [](i64 a, i64 b) { return std::llabs(a - b) < std::max<i64>(b / 10, 100 * MS); };
        if (close_to(hs, oe) || close_to(hsd, od) || close_to(ts, od) || close_to(cs, oe)) { sim->probe("too_close_to_call"); continue; }
        if (hs > oe || hsd > od) {
            i64 due = std::min(hs > oe ? te + oe : NV, hsd > od ? td + od : NV); if (ts > od) due = std::min(due, td + od); i64 first = f->t_end[0] < 0 ? f->t_end[1] : f->t_end[1] < 0 ? f->t_end[0] : std::min(f->t_end[0], f->t_end[1]); sim->probe("handshake_limit_checked");
            window("the end with the shorter limit", first, due); if (!hd1) for (int d = 0; d < 2; d++) if (f->t_end[d] < 0 || f->t_end[d] > due + SLACK + 200 * MS) w.v(fmt("%s: one end kept the connection after the other had dropped it", nm.c_str())); died(due); continue;
        }
        if (ts > od) { sim->probe("target_connect_limit_checked"); window("decrypting daemon", f->t_end[1], td + od); i64 te2 = c->t_eof >= 0 ? c->t_eof : c->t_end; if (te2 < 0 || te2 > td + od + SLACK + 2 * SEC) w.v(nm + ": its application was not told soon after the time limit"); continue; }
        sim->probe("served_within_limits"); w.check_complete(c);
        if (sp && (c->spipe_proc->alive || c->spipe_proc->status)) w.v(nm + ": the client program did not report success");
    }
}

// ---------------------------------------------------------------- P09
static void gen_p09(Plan &p, Rng &r, bool th) {
    net_params(p, r, r.chance(0.5)); p.p.set("xf", r.chance(0.3) ? "-R" : r.chance(0.3) ? "-j_-r_3600" : ""); if (p.p.n("segmax") < 50) p.p.set("segmax", 100); bool dec = r.chance(0.5); p.p.set("who", dec ? "d" : "e"); if (r.chance(0.2)) p.p.set("eaddr", "/run/e.sock"); p.p.setf("p_acc_abort", r.chance(0.3) ? 0.1 : 0);
    string f = r.chance(0.7) ? "-f" : ""; i64 N; int m = (int)r.below(th ? 30 : 60);
    if (m == 0) N = 0; else if (m == 1) N = 100; else { static const i64 n[] = {1, 1, 2, 3, 5, 8}; N = n[r.below(6)]; }
    string lim = m == 1 ? "" : fmt("-n_%lld", (long long)N), o = fmt("-o_%lld", (long long)r.range(1, 6)); if (m < 2) { o = "-o_60"; p.p.kv.erase("eaddr"); } /* many clients wait for a place at d: e must be patient */ auto jn = [](string a, const string &b) { if (a.empty() || b.empty()) return a + b; return a + "_" + b; };
    p.p.set("N", N).set("eflags", jn(jn(f, dec ? "" : lim), o)).set("dflags", jn(jn(f, dec ? lim : ""), o)); if (dec) p.p.set("eflags", jn(p.p.s("eflags"), "-n_0")); else p.p.set("dflags", jn(p.p.s("dflags"), "-n_0"));
    if (m < 2) { int k = (int)r.range(102, 150); p.p.set("big", k); for (int i = 0; i < k; i++) { Item &c = simple_conn(p, r, i + 1, r.range(0, 1000), 20, 20); c.set("findelay", 8000 + r.range(0, 2000)); } p.p.set("segmax", 9000).set("p_short", 0).set("p_eintr", 0).set("lat", 20); return; }
    int k = (int)r.range(2, (int)(3 * N + 8)); i64 span = r.range(100, 8000);
    static const char *W[] = {"conn", "conn", "conn", "silent", "garbage", "rst", "instant", "vanish", "close", "abort", "tvanish"};
    for (int i = 0; i < k; i++) { string x = W[r.below(11)]; if (!dec && x.find("vanish") != string::npos) x = "silent";
        if (x == "conn" || x == "abort") { Item &c = simple_conn(p, r, i + 1, r.range(0, span), r.range(4, 3000), r.range(4, 3000)); if (r.chance(0.5)) c.set(r.chance(0.5) ? "findelay" : "d_findelay", r.range(1, 6000)); if (x == "abort") { if (r.chance(0.5)) c.set("atx", r.range(0, c.n("n"))); else c.set("arx", r.range(1, std::max<i64>(1, c.n("d_n")))); c.set("arst", (i64)r.below(2)); } }
        else p.add("peer").set("what", x).set("at", r.range(0, span)).set("len", r.range(1, 3000)).set("after", r.range(0, 3000)); }
    if (r.chance(0.5)) { i64 t = r.range(0, span); p.add("target").set("at", 1000 + t).set("up", 0); p.add("target").set("at", 1000 + t + r.range(100, 4000)).set("up", 1); }
    if (r.chance(0.3)) { i64 t = r.range(0, span); p.add("bh").set("at", 1000 + t).set("addr", dec ? "10.0.0.3:8003" : "10.0.0.2:8002").set("mode", r.chance(0.5) ? "drop" : r.chance(0.5) ? "unreach" : "rst"); p.add("bh").set("at", 1000 + t + r.range(100, 4000)).set("addr", dec ? "10.0.0.3:8003" : "10.0.0.2:8002").set("mode", "clear"); }
    if (r.chance(0.3)) p.add("rst").set("at", 1000 + r.range(0, span)).set("flow", r.range(0, 2 * k));
}
static void run_p09(World &w) {
    Item &p = w.plan.p; string who = p.s("who", "d"); string addr = who == "d" ? w.d_addr : w.e_addr; i64 N = p.n("N"); int peak = 0; w.strict_exit = true; w.allow_raw = true;
    start_tunnel(w); w.common_items(); start_conns(w); if (w.alive("e") == false && w.alive("d") == false) return;
    auto oa = sim->on_accept; sim->on_accept = [&, oa](Process *q, SockP s) { oa(q, s); if (q == w.P(who)) { int a = w.active(q) + 1; bool in = false; for (auto &e : q->fds) if (e.f && e.f.get() == s.get()) in = true; if (in) a--; peak = std::max(peak, a); if (N && a > N) w.v(fmt("%s serves %d connections at once, its limit is %lld", who.c_str(), a, (long long)N)); if (N && a == N) sim->probe("limit_reached"); } };
    for (auto &i : w.plan.items) if (i.kind == "peer") { Item it = i; w.at_ms(1000 + i.n("at"), [&w, it, addr] { string k = it.s("what"); sim->fire("peer_" + k); SockP s = sim->nat_connect(addr, nullptr); if (k == "instant") { w.raw_on(s, [](RawPeer *q) { q->rst_after = true; }); return; }
        RawPeer *q = w.raw_on(s, [&](RawPeer *q) { if (k == "garbage") q->to_send = string(1, (char)0xC2) + string((size_t)it.n("len"), 'g'); if (k == "rst" || k == "close") { q->close_at = sim->now + it.n("after") * MS; q->rst_after = k == "rst"; q->kick_at(q->close_at); if (it.n("len") & 1) q->to_send = string(1, (char)0xC2) + string((size_t)it.n("len"), 'x'); } if (k == "silent" || k == "garbage") { q->close_at = sim->now + 20 * SEC; q->kick_at(q->close_at); } });
        (void)q; if (k == "vanish" || k == "tvanish") { Flow *f = s->flow.get(); auto wf = f->weak_from_this(); sim->after(it.n("after") * MS / 10, [wf, k] { if (auto f = wf.lock()) { f->link[0].blackhole = true; if (k == "vanish") f->link[1].blackhole = true; } }); q->close_at = sim->now + 20 * SEC; q->kick_at(q->close_at); } }); }
    // liveness: a waiting client must be accepted while a place is free
    i64 since = -1, worst = 0; bool mon = true; function<void()> tick = [&] {
        if (!mon) return; Process *q = w.P(who); auto l = sim->listeners.find(addr);
        bool starving = q && q->alive && l != sim->listeners.end() && !l->second->acceptq.empty() && (!N || w.active(q) < N);
        if (!starving) since = -1; else if (since < 0) since = sim->now; else { worst = std::max(worst, sim->now - since); if (sim->now - since > 1500 * MS) { w.v(fmt("a client has been waiting for %.1f s although only %d of %lld places are taken", (sim->now - since) / 1e9, w.active(q), (long long)N)); mon = false; return; } }
        if (q && q->alive && N && w.active(q) > N) { w.v(fmt("%s serves %d connections at once, its limit is %lld", who.c_str(), w.active(q), (long long)N)); mon = false; return; }
        sim->after(100 * MS, tick); };
    sim->at(1000 * MS, tick);
    if (p.n("big")) { run_until_done(w, 200); w.check_procs(); if (N == 0 && peak < p.n("big")) w.v(fmt("with the limit disabled only %d of %lld simultaneous connections were served at once", peak, (long long)p.n("big"))); if (N == 100 && peak > 100) w.v("more than 100 connections at once"); if (N == 100 && peak < 100) w.v(fmt("only %d connections served at once under the default limit of 100", peak)); for (auto c : w.clients) w.check_complete(c); mon = false; return; }
    // queued clients may wait long behind silent peers, so allow for it
    run_until_done(w, 400); sim->run(sim->now + 25 * SEC); sim->run(sim->now + 300 * SEC, [&, k = (u64)0]() mutable { if (k++ & 31) return false; Process *q = w.P(who); auto l = sim->listeners.find(addr); return !q || !q->alive || (w.active(q) == 0 && (l == sim->listeners.end() || l->second->acceptq.empty())); });
    w.check_procs();
    if (!w.target_up) w.start_target(); sim->blackhole.clear();
    for (auto c : w.clients) if (!c->over()) w.v(fmt("connection %d neither served nor ended", c->id));
    Process *q = w.P(who); if (!q || !q->alive) { mon = false; return; }
    if (w.active(q)) { w.v(fmt("%s still holds %d connection(s) after all peers are gone", who.c_str(), w.active(q))); mon = false; return; }
    // every place must be free again: N+1 fresh long connections
    int base = (int)w.clients.size(), m = (int)(who == "d" ? N : N + 1); peak = 0;   // (a client kept waiting by d would run into the timeout of e)
    vector<App *> fresh;
    for (int i = 0; i < m; i++) { Item c; c.kind = "conn"; c.set("id", 900 + i).set("n", 50).set("d_n", 50).set("findelay", 2500); fresh.push_back(w.client(c, w.e_addr)); }
    (void)base; sim->run(sim->now + 2 * SEC); int a = w.active(q); if (a != N) w.v(fmt("after all earlier connections ended, %d of %d fresh connections are served at once under a limit of %lld", a, m, (long long)N)); else sim->probe("all_places_free_again");
    sim->run(sim->now + 30 * SEC); for (auto c : fresh) w.check_complete(c); w.check_procs(); mon = false;
}

// ---------------------------------------------------------------- P10
static void gen_p10(Plan &p, Rng &r, bool th) {
    net_params(p, r, r.chance(0.5)); if (p.p.n("segmax") < 50) p.p.set("segmax", 100); if (r.chance(0.4)) topo_params(p, r); p.p.setf("p_acc_abort", r.chance(0.3) ? 0.2 : 0);
    p.p.set("rstd", (i64)r.below(2)); string f = r.chance(0.7) ? "-f" : ""; string o = fmt("-o_%lld", (long long)r.range(1, 8)); p.p.set("eflags", f.empty() ? o : f + "_" + o).set("dflags", f.empty() ? o : f + "_" + o);
    int h = (int)r.range(1, 3), k = (int)r.range(1, th ? 14 : 8); i64 span = r.range(100, 6000);
    for (int i = 0; i < h; i++) { Item &c = simple_conn(p, r, i + 1, r.range(0, span), r.range(2000, 20000), r.range(2000, 20000)); c.set("chunk", 1000).set("gap", r.range(0, 100000)).set("d_chunk", 1000).set("d_gap", r.range(0, 100000)); }
    static const char *W[] = {"garbage", "silent", "rst", "rstmid", "noread", "noread", "halfopen", "vanish", "truncpkt", "hsabort", "badtarget", "bhtarget", "cgarbage", "crst", "cnoread", "cnoread", "chalf", "flood", "trst", "tnoread", "tnoread", "oobclose", "badpkt", "badpkt", "evily"};
    if (r.chance(0.35)) { static const struct { const char *c; int e; } F[] = {{"shutdown", EPIPE}, {"shutdown", ENOBUFS}, {"shutdown", ETIMEDOUT}, {"shutdown", EIO}, {"shutdown", ENETDOWN}, {"shutdown", EHOSTUNREACH}, {"shutdown", ENOMEM}, {"recv", ECONNRESET}, {"recv", ETIMEDOUT}, {"recv", EHOSTUNREACH}, {"recv", ENETDOWN}, {"recv", ENOMEM}, {"recv", EIO}, {"send", EPIPE}, {"send", ECONNRESET}, {"send", ETIMEDOUT}, {"send", EHOSTUNREACH}, {"send", ENETUNREACH}, {"send", ENOBUFS}, {"send", EACCES}, {"getsockopt", ENOBUFS}};
        int m = (int)r.range(1, 3); for (int i = 0; i < m; i++) { auto &f = F[r.below(21)]; bool few = f.c[1] == 'h' || f.c[0] == 'g'; p.add("fault").set("proc", r.chance(0.5) ? "e" : "d").set("call", f.c).set("err", f.e).set("nth", few ? r.range(1, 6) : r.range(1, 80)); } }
    for (int i = 0; i < k; i++) p.add("peer").set("what", W[r.below(25)]).set("id", 100 + i).set("at", r.range(0, span)).set("len", r.chance(0.3) ? r.range(1, 400) : r.range(1, 20000)).set("after", r.range(0, 3000)).set("big", r.range(50000, 400000));
}
// Peers that misbehave in every way a single connection can; each is gone after `life`.
void peer_hooks(World &w) {
    auto old = sim->on_flow;
    sim->on_flow = [&w, old](Flow *f) { old(f); if (f->dst == w.t_addr && f->init_proc) { auto i = w.parent.find(f->id); Flow *wf = i == w.parent.end() ? nullptr : w.flow_by_id(i->second); App *c = wf ? w.client_of(wf) : nullptr; if (c && c->sc.s("what") == "badtarget") f->behav = "rst"; if (c && c->sc.s("what") == "bhtarget") f->behav = "drop"; } };
}
void spawn_peer(World &w, const Item &it, i64 life) {
    string k = it.s("what"); sim->fire("peer_" + k); i64 cl = sim->now + life;
    auto rawp = [&](const string &addr, function<void(RawPeer *)> f) { RawPeer *q = w.raw_on(sim->nat_connect(addr, nullptr), [&](RawPeer *q) { q->close_at = cl; f(q); q->kick_at(q->close_at); }); return q; };
    auto appc = [&](const string &addr, bool ref, function<void(Item &)> f) { Item c = it; c.kind = "conn"; c.set("n", 500).set("d_n", 500).set("fin", 9).set("d_fin", 9); f(c); App *a = ref ? w.ref_client(c, addr, w.key) : w.client(c, addr); a->sc = c; App *b = a; sim->at(cl, [b] { if (!b->closed) { b->aborted = true; b->end(); } }); return a; };
    size_t len = (size_t)it.n("len"); i64 after = sim->now + it.n("after") * MS;
    if (k == "garbage") rawp(w.d_addr, [&](RawPeer *q) { q->to_send = string(len, 'g'); });
    else if (k == "silent") rawp(w.d_addr, [&](RawPeer *) {});
    else if (k == "rst") rawp(w.d_addr, [&](RawPeer *q) { q->close_at = after; q->rst_after = true; if (len & 1) q->to_send = string(len, 'r'); });
    else if (k == "halfopen") rawp(w.d_addr, [&](RawPeer *q) { q->to_send = string(len % 320, 'h'); q->fin_after = true; });
    else if (k == "hsabort") rawp(w.d_addr, [&](RawPeer *q) { q->to_send = string(len % 320, 'h'); q->close_at = after; });
    else if (k == "flood") for (int j = 0; j < 25; j++) rawp(w.d_addr, [&](RawPeer *q) { q->close_at = after; q->rst_after = j & 1; });
    else if (k == "rstmid") appc(w.d_addr, true, [&](Item &c) { c.set("n", it.n("big")).set("atx", (i64)len).set("arst", 1); });
    else if (k == "noread") appc(w.d_addr, true, [&](Item &c) { c.set("n", 4).set("d_n", it.n("big")).set("hold", 0).set("stop", it.n("len")).set("resume", 100000); });
    else if (k == "truncpkt") { App *a = appc(w.d_addr, true, [&](Item &c) { c.set("n", 300); }); sim->at(after, [a, len] { if (!a->closed && a->ref->st == 2) { string x = ref_pack(a->ref->keys, 0, string(300, 'T')); a->s->do_write(x.data(), 1 + len % 1059, 0); a->s->do_shutdown(SHUT_WR); } }); }
    // peers which know the key but break the protocol
    else if (k == "badpkt") { App *a = appc(w.d_addr, true, [&](Item &c) { c.set("n", (i64)(len % 3) * 700); }); sim->at(after + 500 * MS, [a, len] { if (a->closed || a->ref->st != 2) return; RefKeys &K = a->ref->keys; string d = string(1 + len % 1024, 'B'), x;
        switch (len % 8) { case 0: case 1: x = ref_pack(K, 0, ""); break; case 2: x = ref_pack(K, 0, d, 1025); break; case 3: x = ref_pack(K, 0, d, 0xffffffffLL); break; case 4: x = ref_pack(K, 0, d, -1, true); break; case 5: fill_content(d, a->id, a->sent, d.size()); a->sent += d.size(); a->total = a->sent; x = ref_pack(K, 0, d); x += x; break; case 6: K.pnum[0]++; x = ref_pack(K, 0, d); break; default: x = ref_pack(K, 0, d); x[len % 1060] ^= 0x10; x += ref_pack(K, 0, d); }
        sim->fire(fmt("peer_badpkt%d", (int)(len % 8))); a->ref->out += x; a->kick(); }); }
    else if (k == "evily") { App *a = appc(w.d_addr, true, [&](Item &c) { c.set("n", 10); }); string y(256, 0); switch (len % 6) { case 0: break; case 1: y[255] = 1; break; case 2: y = dh_group14(); break; case 3: y = dh_group14(); y[255] = (char)(y[255] - 1); break; case 4: y = string(256, (char)0xff); break; default: y[255] = 2; } a->ref->y_force = y; }
    else if (k == "vanish") { App *a = appc(w.d_addr, true, [&](Item &c) { c.set("n", it.n("big")).set("d_n", it.n("big")); }); auto f = a->s->flow; sim->at(after, [f] { f->link[0].blackhole = f->link[1].blackhole = true; }); }
    else if (k == "badtarget" || k == "bhtarget") appc(w.e_addr, false, [&](Item &c) { c.set("n", 100); });
    else if (k == "cgarbage") rawp(w.e_addr, [&](RawPeer *q) { q->to_send = string(1, (char)0xC2) + string(len, 'c'); q->close_at = after; });
    else if (k == "crst") appc(w.e_addr, false, [&](Item &c) { c.set("n", it.n("big")).set("d_n", it.n("big")).set(len & 1 ? "atx" : "arx", (i64)len).set("arst", 1); });
    else if (k == "cnoread") appc(w.e_addr, false, [&](Item &c) { c.set("n", 4).set("d_n", it.n("big")).set("stop", it.n("len")).set("resume", 100000); });
    else if (k == "chalf") appc(w.e_addr, false, [&](Item &c) { c.set("n", 50).set("fin", 1); });
    else if (k == "trst") appc(w.e_addr, false, [&](Item &c) { c.set("n", it.n("big")).set("d_n", it.n("big")).set(len & 1 ? "d_atx" : "d_arx", (i64)std::max<size_t>(len, 4)).set("d_arst", 1); });
    else if (k == "tnoread") appc(w.e_addr, false, [&](Item &c) { c.set("n", it.n("big")).set("d_stop", it.n("len")).set("d_resume", 100000); });
    else if (k == "oobclose") { RawPeer *q = rawp(w.e_addr, [&](RawPeer *q) { q->to_send = string(1, (char)0xC2) + string(len, 'o'); q->fin_after = true; q->noread = true; }); (void)q; }
}
static void run_p10(World &w) {
    Item &p = w.plan.p; w.allow_raw = true; peer_hooks(w); w.common_items();
    // connections on which a system call was made to fail may break, but only they
    auto hurt = [&w](App *c) { for (auto f : sim->flows) if (f->faulted) { if (f->id == c->flow_id) return true; if (w.client_of(f.get()) == c) return true; auto i = w.parent.find(f->id); if (i != w.parent.end()) { Flow *u = w.flow_by_id(i->second); if (u && (u->id == c->flow_id || w.client_of(u) == c)) return true; } } return false; };
    start_tunnel(w); start_conns(w);
    for (auto &i : w.plan.items) if (i.kind == "peer") { Item it = i; w.at_ms(1000 + i.n("at"), [&w, it] { spawn_peer(w, it, 25 * SEC); }); }
    // honest connections must run to the end on their own time
    i64 lim = 0; for (auto &i : w.plan.items) if (i.kind == "conn") { i64 ms = 1000 + i.n("at") + (std::max(i.n("n") * i.n("gap"), i.n("d_n") * i.n("d_gap")) / 1000 / 1000) + 12000; if (p.f("p_short", 0) > 0.2 || p.n("segmax") < 500 || p.n("lat") > 5000) ms += 12000; lim = std::max(lim, ms); }
    // a connection attempt which the kernel dropped because the queue was full may time out before the retransmission
    auto dropped = [&](App *c) { for (auto f : w.wire) if (f->syn_drops && w.client_of(f) == c) return true; return false; };
    auto hon = [&] { int n = 0, t = n_conn_items(w); for (auto c : w.clients) if (!c->sc.has("what") && (c->over() || dropped(c))) n++; return n >= t; };
    sim->run(lim * MS, [&, k = (u64)0]() mutable { return (k++ & 31) == 0 && hon(); });
    bool in_time = hon(); if (!in_time) w.v("an undisturbed connection made no progress while other peers misbehaved: " + [&] { for (auto c : w.clients) if (!c->sc.has("what") && !c->over()) return fmt("connection %d sent=%llu/%llu received=%llu", c->id, (unsigned long long)c->sent, (unsigned long long)c->total, (unsigned long long)c->rxn); return string("never started"); }());
    sim->run(std::max<i64>(sim->now, 35 * SEC) + 3 * SEC);
    w.check_procs();
    for (auto c : w.clients) if (!c->sc.has("what") && !dropped(c)) { if (hurt(c)) { sim->probe("connection_with_failing_call_ended"); for (auto t : w.targets) if (t->peer == c && !t->over()) w.v(fmt("connection %d, on which a system call failed, is not over for the target", c->id)); } else if (in_time) w.check_complete(c); }
    sim->faults.clear();
    // the daemons still accept and serve
    Item c; c.kind = "conn"; c.set("id", 990).set("n", 3000).set("d_n", 3000); App *a = w.client(c, w.e_addr); sim->run(sim->now + 10 * SEC); w.check_complete(a); w.check_procs();
}

// ---------------------------------------------------------------- P11
static void gen_p11(Plan &p, Rng &r, bool th) {
    net_params(p, r, r.chance(0.6)); if (p.p.n("segmax") < 50) p.p.set("segmax", 100); if (r.chance(0.3)) topo_params(p, r); string who = r.chance(0.5) ? "d" : "e"; p.p.set("who", who).set("both", (i64)r.chance(0.2));
    string fl = r.chance(0.7) ? "-f" : ""; if (r.chance(0.35)) { fl += fl.empty() ? "" : "_"; fl += fmt("-n_%lld", (long long)r.range(1, 4)); } if (r.chance(0.4)) { fl += fl.empty() ? "" : "_"; fl += "-r_1.5"; if (r.chance(0.5)) p.p.set("dnshang", 1); p.p.set("named", 1); p.p.kv.erase("daddr"); p.p.kv.erase("taddr"); }
    p.p.set("eflags", fl).set("dflags", fl); int k = (int)r.range(0, th ? 8 : 5); i64 T = 1200 + r.range(0, 5000), D = r.chance(0.15) ? r.range(10000, 120000) : 0; T += D; p.p.set("T", T);
    static const char *W[] = {"conn", "conn", "conn", "silent", "abort", "garbage", "wait"};
    for (int i = 0; i < k; i++) { string x = W[r.below(7)]; i64 at = D && r.chance(0.7) ? r.range(D, T + 3000 - 1000) : r.range(0, T + 3000 - 1000);
        if (x == "conn" || x == "abort" || x == "wait") { Item &c = add_conn(p, r, i + 1, at, 15000); if (r.chance(0.6)) c.set(r.chance(0.5) ? "findelay" : "d_findelay", r.range(1, 20000)); if (x == "abort") { if (r.chance(0.5)) c.set("atx", r.range(0, c.n("n"))); else c.set("arx", r.range(1, std::max<i64>(1, c.n("d_n")))); c.set("arst", (i64)r.below(2)); } }
        else p.add("peer").set("what", x).set("at", at).set("len", r.range(1, 2000)); }
    if (r.chance(0.2)) p.add("pause").set("at", T + r.range(-500, 500)).set("who", who).set("for", r.range(1, 1500));
    if (r.chance(0.2)) { p.add("target").set("at", T - r.range(0, 2000)).set("up", 0); p.add("target").set("at", T + r.range(0, 3000)).set("up", 1); p.p.set("tdown", 1); }
    if (r.chance(0.15)) { p.p.set("pid1", 1); if (r.chance(0.4)) p.p.set("int", r.range(0, 3)); }          // as process 1 of a container
    for (int i = 0; i < 2; i++) p.add("late").set("id", 700 + i).set("at", T + 2300 + r.range(0, 6000));
    shrink_for_seg(p);
}
static void run_p11(World &w) {
    Item &p = w.plan.p; w.allow_raw = true; string who = p.s("who", "d"); i64 T = p.n("T") * MS; w.may_exit.insert(who); if (p.n("both")) { w.may_exit.insert("e"); w.may_exit.insert("d"); }
    if (p.n("named")) { // targets by name, so that lookups are in flight when the signal arrives
        w.dns_tab["server.example"] = {"10.0.0.2"}; w.dns_tab["target.example"] = {"10.0.0.3"};
        if (p.n("dnshang")) sim->at(800 * MS, [&w] { w.dns_delay["server.example"] = w.dns_delay["target.example"] = -1; });
        w.start_target();
        vector<string> d = {"-d", "-F", "-s", A(w.d_addr), "-t", "target.example:8003", "-k", "/key"}, e = {"-e", "-F", "-s", A(w.e_addr), "-t", "server.example:8002", "-k", "/key"};
        for (auto &x : w.flags(p.s("dflags"))) d.push_back(x); for (auto &x : w.flags(p.s("eflags"))) e.push_back(x); w.spawn("d", "spiped", d); w.spawn("e", "spiped", e);
    } else start_tunnel(w);
    w.common_items(); start_conns(w);
    i64 pause = 0; for (auto &i : w.plan.items) if (i.kind == "pause") pause = i.n("for") * MS;
    if (p.n("pid1")) { w.P(who)->pid1 = true; w.P(who)->pid = 1; sim->fire("runs_as_process_1"); }
    if (p.has("int")) { // process 1 gets SIGINT: it ends at once, whatever is going on
        Process *q = w.P(who); i64 t = T + p.n("int") * 500 * MS; if (p.n("int")) sim->at(T, [&] { w.kill(who, SIGTERM); }); bool was = false; sim->at(t, [&] { was = q->alive; if (was) { sim->signal_proc(q, SIGINT); sim->fire("sigint"); } }); sim->run(t + pause + SEC);
        if (was && (q->alive || q->t_exit > t + pause + 200 * MS)) w.v(fmt("%s, as process 1, did not end at SIGINT", who.c_str())); else if (was) sim->probe("sigint_checked"); return; }
    string addr = who == "d" ? w.d_addr : w.e_addr; vector<App *> late; map<u64, i64> acc_late; vector<string> sg = {who}; if (p.n("both")) sg = {"e", "d"};
    auto oa = sim->on_accept; map<Process *, i64> last_end; map<Process *, i64> texit; int accepted_after = 0; map<Process *, u64> nacc;
    sim->on_accept = [&, oa](Process *q, SockP s) { oa(q, s); nacc[q]++; for (auto &n : sg) if (q == w.P(n) && sim->now > T + 2200 * MS + pause) { accepted_after++; w.v(fmt("%s accepted a new connection %.2f s after SIGTERM", n.c_str(), (sim->now - T) / 1e9)); } };
    sim->at(T, [&] { for (auto &n : sg) { w.kill(n, SIGTERM); sim->fire("sigterm"); } });
    for (auto &i : w.plan.items) { Item it = i; if (i.kind == "late") sim->at(std::max(i.n("at") * MS, T + pause + 2300 * MS), [&, it] { Item c; c.kind = "conn"; c.set("id", it.n("id")).set("n", 100).set("d_n", 100).set("late", 1); late.push_back(w.client(c, addr)); late.back()->ignore_data = false; });
        else if (i.kind == "peer") w.at_ms(1000 + i.n("at"), [&, it] { string k = it.s("what"); w.raw_on(sim->nat_connect(addr, nullptr), [&](RawPeer *q) { if (k == "garbage") q->to_send = string(1, (char)0xC2) + string((size_t)it.n("len"), 'g'); q->close_at = sim->now + 30 * SEC; q->kick_at(q->close_at); }); }); }
      map<string, Process *> pr; for (auto &n : sg) pr[n] = w.P(n);
    // remember when the last accepted connection of each signalled daemon ended
    function<void()> tick = [&] { for (auto &n : sg) { Process *q = pr[n]; if (q && q->alive && w.active(q) > 0) last_end[q] = sim->now; } if (sim->now < T + 200 * SEC) sim->after(50 * MS, tick); }; sim->at(1000 * MS, tick);
    sim->run(T + 200 * SEC, [&, k = (u64)0]() mutable { if (k++ & 31) return false; if (sim->now < T + 12 * SEC) return false; for (auto &n : sg) if (pr[n]->alive) return false; for (auto &a : w.apps) if (!a->over()) return false; return true; });
    if (sim->now < T + 200 * SEC) sim->run(sim->now + 2 * SEC);
    w.check_procs();
    for (auto &n : sg) {
        Process *q = pr[n]; i64 le = last_end.count(q) ? last_end[q] : 0;
        if (q->alive) { w.v(fmt("%s has not exited after SIGTERM although %s", n.c_str(), w.active(q) ? "connections were given all the time they need" : "no connection is left")); continue; }
        if (q->termsig || q->status != 0) { w.v(fmt("%s did not exit with success after SIGTERM: %s status %d %s", n.c_str(), q->exit_how.c_str(), q->status, q->err_out.substr(q->err_out.size() > 150 ? q->err_out.size() - 150 : 0).c_str())); continue; }
        if (q->t_exit < T) { w.v(fmt("%s exited before SIGTERM", n.c_str())); continue; }
        i64 due = std::max(le, T) + 2300 * MS + pause; if (q->t_exit > due) w.v(fmt("%s exited only %.1f s after SIGTERM; its last connection ended at +%.1f s", n.c_str(), (q->t_exit - T) / 1e9, (le - T) / 1e9)); else sim->probe("clean_exit_in_time");
        if (le > T + 1000 * MS) sim->probe("drained_connections");
    }
    // connections accepted by the signalled daemon ran to the end
    bool tdown = p.n("tdown");
    for (auto c : w.clients) {
        if (c->sc.has("late") || c->aborted || c->sc.has("atx") || c->sc.has("arx")) continue;
        bool acc = false, late_acc = false; // was this connection accepted by every daemon on its way?
        if (w.t_accept.count(c->flow_id)) for (auto f : w.wire) if (w.client_of(f) == c && w.t_accept.count(f->id)) (w.t_accept[f->id] - f->t_start < 3 * SEC ? acc : late_acc) = true;   // (not if it waited for a place until the other daemon's timeout)
        if (!acc) { if (c->rxn && !late_acc) w.v(fmt("connection %d received data without having been accepted", c->id)); continue; }
        if (tdown && c->peer == nullptr) continue;
        w.check_complete(c); sim->probe("accepted_connection_checked");
    }
    for (auto c : late) if (c->rxn) w.v(fmt("connection %d, made long after SIGTERM, was served", c->id));
}
extern const PropDef props3[] = {{"P08", gen_p08, run_p08}, {"P09", gen_p09, run_p09}, {"P10", gen_p10, run_p10}, {"P11", gen_p11, run_p11}, {nullptr, nullptr, nullptr}};
