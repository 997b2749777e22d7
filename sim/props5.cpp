// P15 P16 P17 P18: resources, failures of resources, bounded buffering, no busy loop
#include "props.h"
#include <algorithm>

static string jn(const string &a, const string &b) { return a.empty() || b.empty() ? a + b : a + "_" + b; }

// ---------------------------------------------------------------- P15
static const char *ENDS[] = {"garbage", "silent", "rst", "rstmid", "noread", "halfopen", "vanish", "truncpkt", "hsabort", "badtarget", "bhtarget", "cgarbage", "crst", "cnoread", "chalf", "trst", "tnoread", "oobclose", "normal", "normal", "wrongkey", "netrst", "bhserver", "refserver", "tfin", "badmac", "weak"};
static void gen_p15(Plan &p, Rng &r, bool th) {
    net_params(p, r, r.chance(0.5)); if (p.p.n("segmax") < 50) p.p.set("segmax", 100); if (p.p.n("lat") > 1000) p.p.set("lat", 1000); if (r.chance(0.3)) topo_params(p, r); p.p.setf("p_acc_abort", r.chance(0.3) ? 0.2 : 0).set("rstd", (i64)r.below(2));
    string f = r.chance(0.8) ? "-f" : r.chance(0.3) ? "-g" : ""; f = jn(f, fmt("-o_%d", (int)r.range(1, 3))); if (r.chance(0.2)) f = jn(f, "-j"); if (r.chance(0.25)) f = jn(f, fmt("-n_%d", (int)r.range(1, 6)));
    if (r.chance(0.25)) { p.p.set("named", 1); f = jn(f, "-r_1"); p.p.kv.erase("daddr"); p.p.kv.erase("taddr"); p.p.set("dnserr", (i64)r.chance(0.5)); }
    p.p.set("eflags", f).set("dflags", f).set("K", th ? r.range(3, 8) : r.range(2, 3));
    int nk = r.chance(0.75) ? (int)r.range(1, 2) : (int)r.range(3, 8), n = (int)r.range(4, 10); vector<string> ks; for (int i = 0; i < nk; i++) ks.push_back(ENDS[r.below(sizeof ENDS / sizeof *ENDS)]);
    for (int i = 0; i < n; i++) p.add("peer").set("what", ks[r.below(ks.size())]).set("id", 100 + i).set("at", r.range(0, 400)).set("len", r.chance(0.3) ? r.range(1, 400) : r.range(1, 20000)).set("after", r.range(0, 2500)).set("big", r.range(30000, 100000));
}
static void run_p15(World &w) {
    Item &p = w.plan.p; w.allow_raw = true; peer_hooks(w);
    { auto old = sim->on_flow; sim->on_flow = [&w, old](Flow *f) { old(f); if (f->dst == w.d_addr && f->init_proc) if (App *c = w.client_of(f)) { string k = c->sc.s("what"); if (k == "bhserver") f->behav = "drop"; if (k == "refserver") f->behav = "rst"; if (k == "badmac") { auto t = make_shared<Tamper>(&w, w.plan.seed * 77 + f->id); Item op; op.set("what", "macflip").set("dir", c->sc.n("len") & 1).set("pkt", 0).set("off", c->sc.n("len")).set("bit", 3); t->ops.push_back(op); f->mitm = t; }
        if (k == "netrst" && !f->local_unix) { auto wf = f->weak_from_this(); sim->after(c->sc.n("after") * MS / 5, [wf] { if (auto f = wf.lock()) { f->emit_rst(0); f->emit_rst(1); } }); } } }; }
    if (p.n("named")) { w.dns_tab["server.example"] = {"10.0.0.2"}; w.dns_tab["target.example"] = {"10.0.0.3"}; w.start_target();
        vector<string> d = {"-d", "-F", "-s", A(w.d_addr), "-t", "target.example:8003", "-k", "/key"}, e = {"-e", "-F", "-s", A(w.e_addr), "-t", "server.example:8002", "-k", "/key"};
        for (auto &x : w.flags(p.s("dflags"))) d.push_back(x); for (auto &x : w.flags(p.s("eflags"))) e.push_back(x); w.spawn("d", "spiped", d); w.spawn("e", "spiped", e);
        if (p.n("dnserr")) for (int i = 0; i < 40; i++) { sim->at((3 * i + 3) * SEC, [&w] { w.dns_err["server.example"] = w.dns_err["target.example"] = -3; sim->fire("dns_failing"); }); sim->at((3 * i + 4) * SEC + 500 * MS, [&w] { w.dns_err.clear(); }); }
    } else start_tunnel(w);
    w.on_target = [](App *a) { sim->after(12 * SEC, [a] { if (!a->closed) { a->aborted = true; a->end(); } }); };      // no application waits for ever
    vector<string> who = {"d", "e"}; struct S { i64 fds = 1 << 30, blocks = 1ll << 50, bn = 1 << 30, bytes = 1ll << 50; }; vector<map<string, S>> hist;
    auto sample = [&] { map<string, S> m; i64 end = sim->now + 1300 * MS; while (sim->now < end) { sim->run(sim->now + 50 * MS); for (auto &n : who) { Process *q = w.P(n); S &s = m[n]; s.fds = std::min<i64>(s.fds, q->live_fds()); s.blocks = std::min<i64>(s.blocks, (i64)q->heap.live_blocks); s.bn = std::min(s.bn, q->bn_live); s.bytes = std::min<i64>(s.bytes, (i64)q->heap.live_bytes); } } hist.push_back(m); };
    sim->run(700 * MS); sample();
    int K = (int)p.n("K", 2), made = 0;
    for (int b = 0; b <= K; b++) {
        i64 t0 = sim->now, last = 0; int rep = b == 0 ? 2 : 1;          // the first batch is larger, to bring caches to their size
        for (int j = 0; j < rep; j++) for (auto &i : w.plan.items) if (i.kind == "peer") { Item it = i; it.set("id", i.n("id") + 100 * (b + 1) + 50 * j); string k = it.s("what"); i64 at = b == 0 ? i.n("at") / 4 : i.n("at"); last = std::max(last, at); made++;
            sim->at(t0 + at * MS, [&w, it, k] {
                auto cl = [&](bool ref, const string &key) { Item c = it; c.kind = "conn"; c.set("n", 500).set("d_n", 500); if (k == "bhserver" || k == "refserver" || k == "wrongkey" || k == "badmac" || k == "netrst") { c.set("fin", 9); if (k == "netrst") c.set("n", 20000).set("d_n", 20000).set("d_fin", 9); } if (k == "tfin") c.set("fin", 0).set("d_fin", 1).set("n", it.n("big") / 10); App *a = ref ? w.ref_client(c, w.d_addr, key) : w.client(c, w.e_addr); a->sc = c; if (c.n("fin", 1) == 9) sim->after(8 * SEC, [a] { if (!a->closed) { a->aborted = true; a->end(); } }); };
                if (k == "normal" || k == "tfin" || k == "bhserver" || k == "refserver" || k == "netrst" || k == "badmac") { sim->fire("peer_" + k); cl(false, ""); }
                else if (k == "wrongkey") { sim->fire("peer_" + k); cl(true, "not the key"); }
                else if (k == "weak") { sim->fire("peer_" + k); w.raw_on(sim->nat_connect(w.d_addr, nullptr), [&](RawPeer *q) { q->to_send = string(32, 'n') + string(256 + 32, '\0'); q->close_at = sim->now + 8 * SEC; q->kick_at(q->close_at); }); }
                else spawn_peer(w, it, 8 * SEC);
                if (k == "vanish") { auto f = sim->flows.back()->weak_from_this(); sim->after(7900 * MS, [f] { if (auto x = f.lock()) x->link[0].blackhole = x->link[1].blackhole = false; }); } }); }   // (a peer that has vanished is noticed by the keep-alive probes of the system; here it comes back and resets)
        auto quiet = [&] { for (auto &n : who) { Process *q = w.P(n); if (!q->alive) return true; if (w.active(q) || held_socks(w, q)) return false; } for (auto &a : w.apps) if (!a->over()) return false; for (auto &l : sim->listeners) if (!l.second->acceptq.empty()) return false; return true; };
        sim->run(t0 + last * MS + 100 * MS); sim->run(t0 + 400 * SEC, [&, k = (u64)0]() mutable { return (k++ & 31) == 0 && quiet(); });
        for (auto &n : who) { Process *q = w.P(n); if (!q->alive) { w.check_procs(); return; } if (w.active(q) || held_socks(w, q)) { w.v(fmt("%s still holds %d socket(s) of ended connections after batch %d", n.c_str(), std::max(w.active(q), held_socks(w, q)), b)); return; } }
        for (auto &a : w.apps) if (!a->over()) { w.v(fmt("connection %d never ended", a->id)); break; }
        sim->run(sim->now + 1200 * MS); sample();
        w.check_procs(); if (!sim->viol.empty()) return;
    }
    for (auto &n : who) {
        for (size_t b = 1; b < hist.size(); b++) if (hist[b][n].fds != hist[0][n].fds) { w.v(fmt("%s: %lld descriptors open while idle after batch %zu, %lld before any connection", n.c_str(), (long long)hist[b][n].fds, b - 1, (long long)hist[0][n].fds)); break; }
        i64 g = hist.back()[n].blocks - hist[1][n].blocks, gb = hist.back()[n].bn - hist[1][n].bn;
        w.stat["max_block_growth"] = std::max(w.stat["max_block_growth"], (double)g); w.stat["growth_bytes"] += (double)(hist.back()[n].bytes - hist[1][n].bytes);
        if (g > 0) sim->probe("small_cache_growth"); int each = 0; for (size_t b = 2; b < hist.size(); b++) each += hist[b][n].blocks > hist[b - 1][n].blocks;
        if (g > 12 || (each == K && g >= 2 * K && K >= 2 && g >= 4)) w.v(fmt("%s: %lld more memory block(s) in use after %d further equal batches", n.c_str(), (long long)g, K));
        if (gb) w.v(fmt("%s: big numbers leaked: %lld", n.c_str(), (long long)gb));
    }
    // and everything is given back when the daemons leave
    for (auto &n : who) w.kill(n, SIGTERM);
    sim->run(sim->now + 4 * SEC);
    for (auto &n : who) { w.may_exit.insert(n); Process *q = w.P(n); if (q->alive) { w.v(n + " did not exit after SIGTERM although idle"); continue; } 
        i64 ph = (q->t_exit - q->t_start + SEC) % (60 * SEC); bool lookup = p.n("named") || (q->t_exit - q->t_start > 50 * SEC && ph < 3 * SEC);      // (a lookup in progress or just answered keeps its own data)
        if (lookup) { sim->probe("exit_during_lookup"); continue; } sim->probe("exit_checked");
        if (q->marks["exit_live_blocks"]) w.v(fmt("%s left %lld memory block(s) behind when it ended", n.c_str(), (long long)q->marks["exit_live_blocks"]));
        if (q->marks["exit_live_fds"] > 3) w.v(fmt("%s left %lld descriptor(s) open when it ended", n.c_str(), (long long)q->marks["exit_live_fds"] - 3));
        if (q->marks["exit_bn"] || q->marks["exit_bnctx"]) w.v(fmt("%s left %lld big number(s) behind when it ended", n.c_str(), (long long)(q->marks["exit_bn"] + q->marks["exit_bnctx"]))); }
    w.check_procs(); (void)made;
}

// ---------------------------------------------------------------- P16
struct RF { const char *call; int err; };
static const RF RFS[] = {{"malloc", ENOMEM}, {"malloc", ENOMEM}, {"malloc", ENOMEM}, {"malloc", ENOMEM}, {"bn", 1}, {"urandom", EIO}, {"open", EMFILE}, {"open", ENOENT}, {"socket", EMFILE}, {"socket", ENFILE}, {"socketpair", EMFILE}, {"accept", EMFILE}, {"accept", ENOMEM}, {"accept", ECONNABORTED}, {"accept", ECONNABORTED}, {"accept", EINTR}, {"fcntl", ENOMEM}, {"setsockopt", ENOBUFS}, {"getsockopt", ENOBUFS}, {"connect", EADDRNOTAVAIL}, {"connect", ENETUNREACH}, {"connect", ENOBUFS}, {"connect", EINTR},
    {"recv", ECONNRESET}, {"recv", ENOMEM}, {"recv", ETIMEDOUT}, {"recv", EINTR}, {"send", EPIPE}, {"send", ENOMEM}, {"send", ENOBUFS}, {"send", EHOSTUNREACH}, {"send", EINTR}, {"read", EIO}, {"read", EINTR}, {"write", EIO}, {"write", EINTR}, {"poll", ENOMEM}, {"poll", EINTR}, {"clock_gettime", EPERM}, {"pthread_create", EAGAIN}, {"mutex_init", ENOMEM}, {"cond_init", EAGAIN}, {"getaddrinfo", ENOMEM}, {"listen", EADDRINUSE}, {"bind", EADDRINUSE}, {"signal", EINVAL}, {"fopen", EMFILE}, {"atexit", 1}};
// failures of one system call which concern at most the connection it was made for
static bool survivable(const Item &i) { int e = (int)i.n("err"); string c = i.s("call"); return (c == "accept" && (e == ECONNABORTED || e == EINTR)) || c == "recv" || c == "send" || c == "connect" || (c == "poll" && e == EINTR); }
static void gen_p16(Plan &p, Rng &r, bool th) {
    net_params(p, r, r.chance(0.4)); if (p.p.n("segmax") < 50) p.p.set("segmax", 100); if (r.chance(0.3)) topo_params(p, r);
    string f = r.chance(0.8) ? "-f" : ""; f = jn(f, fmt("-o_%d", (int)r.range(2, 5))); if (r.chance(0.15)) f = jn(f, "-n_2");
    if (r.chance(0.4)) { p.p.set("named", 1); f = jn(f, r.chance(0.5) ? "-r_1" : "-r_3"); p.p.kv.erase("daddr"); p.p.kv.erase("taddr"); if (r.chance(0.5)) p.p.set("multi", 1); }
    p.p.set("eflags", f).set("dflags", f); bool spipe = r.chance(0.35); if (spipe) p.p.set("need_e", 0);
    int k = (int)r.range(1, th ? 6 : 4); for (int i = 0; i < k; i++) { Item &c = simple_conn(p, r, i + 1, r.range(0, 3000), r.range(4, 15000), r.range(4, 15000)); if (spipe) to_spipe(c); if (r.chance(0.3)) c.set("chunk", 500).set("gap", r.range(1, 300000)); }
    int nf = r.chance(0.7) ? 1 : (int)r.range(2, 3); bool start = r.chance(0.3);
    for (int i = 0; i < nf; i++) { const RF &x = RFS[r.below(sizeof RFS / sizeof *RFS)]; Item &q = p.add("rf"); q.set("call", x.call).set("err", x.err); int wh = (int)r.below(3); q.set("who", spipe ? (wh == 0 ? "d" : fmt("spipe%d", (int)r.range(1, k))) : wh < 2 ? "d" : "e"); string c = x.call; i64 span = c == "malloc" ? 60 : c == "poll" || c == "clock_gettime" ? 40 : c == "bn" ? 20 : c == "recv" || c == "send" ? 12 : 5;
        if (start || q.s("who")[0] == 's') q.set("at", 0).set("nth", r.range(1, span)); else q.set("at", 900 + r.range(0, 4000)).set("nth", r.range(1, r.chance(0.5) ? std::max<i64>(2, span / 4) : span)); if (r.chance(0.1)) q.set("count", r.range(2, 1000)); if (c == "atexit" || c == "fopen" || c == "listen" || c == "bind" || c == "signal") q.set("at", 0).set("nth", r.range(1, 3)); }
    if (r.chance(0.3)) p.p.set("late_rst", r.range(1000, 5000));
    if (r.chance(0.3)) p.p.set("slow", r.range(300, 1500));
}
static void run_p16(World &w) {
    Item &p = w.plan.p; w.allow_raw = true; w.strict_exit = false; set<string> hit, touched, mute, noatexit;
    for (auto &i : w.plan.items) if (i.kind == "rf") { touched.insert(i.s("who")); if (!survivable(i)) hit.insert(i.s("who")); else sim->fire("survivable_fault"); if (i.s("call") == "atexit") noatexit.insert(i.s("who")); if (i.s("call") == "write") mute.insert(i.s("who")); Item it = i; auto arm = [it](i64 base) { Fault f; f.proc = it.s("who"); f.call = it.s("call"); f.nth = base + it.n("nth"); f.err = (int)it.n("err"); f.count = it.n("count", 1); sim->faults.push_back(f); };
        if (!i.n("at")) arm(0); else w.at_ms(i.n("at"), [&w, it, arm] { Process *q = w.P(it.s("who")); if (q && q->alive) arm((i64)(it.s("call") == "malloc" ? q->n_malloc : q->ncalls[it.s("call")])); }); }
    if (p.n("named")) { w.dns_tab["server.example"] = {"10.0.0.2"}; w.dns_tab["target.example"] = {"10.0.0.3"}; if (p.n("multi")) { w.dns_tab["server.example"] = {"10.0.0.52", "10.0.0.53", "10.0.0.2"}; w.dns_tab["target.example"] = {"10.0.0.62", "10.0.0.63", "10.0.0.3"}; for (auto a : {"10.0.0.52:8002", "10.0.0.63:8003"}) sim->blackhole[a] = "rst"; } w.start_target();
        if (p.n("slow") && p.n("multi")) for (auto a : {"10.0.0.53:8002", "10.0.0.62:8003"}) sim->blackhole[a] = fmt("slow:%lld", (long long)p.n("slow"));
        vector<string> d = {"-d", "-F", "-s", A(w.d_addr), "-t", "target.example:8003", "-k", "/key"}, e = {"-e", "-F", "-s", A(w.e_addr), "-t", "server.example:8002", "-k", "/key"};
        for (auto &x : w.flags(p.s("dflags"))) d.push_back(x); for (auto &x : w.flags(p.s("eflags"))) e.push_back(x); w.spawn("d", "spiped", d); if (p.n("need_e", 1)) w.spawn("e", "spiped", e);
    } else start_tunnel(w);
    if (p.n("slow") && !p.n("multi")) sim->blackhole[w.t_addr] = fmt("slow:%lld", (long long)p.n("slow"));
    start_conns(w); if (p.has("late_rst")) sim->at(p.n("late_rst") * MS, [] { for (auto &f : sim->flows) if (!f->local_unix && f->established) { f->emit_rst(0); f->emit_rst(1); sim->fire("network_rst"); break; } });
    sim->run(110 * SEC, [&, n = n_conn_items(w), k = (u64)0]() mutable { if (k++ & 15) return false; if ((int)w.clients.size() < n || sim->now < 12 * SEC) return false; for (auto &a : w.apps) if (!a->over()) return false; return true; });
    for (auto q : sim->procs) if (q->exit_how == "abort()" && (q->err_out.find("Failed to allocate memory in getopt") != string::npos || (q->n_malloc < 8 && q->err_out.find("ssert") == string::npos && [&] { for (auto &f : sim->faults) if (f.used && f.proc == q->name && f.call == "write") return true; return false; }()))) { q->exit_how = "killed"; sim->probe("option_parser_gave_up"); }   // an orderly end with a message
    sim->faults.clear(); if (sim->now < 110 * SEC) sim->run(sim->now + 8 * SEC);
    // (when spipe gives up, its main thread closes the socket pair while the copying threads still run; they find it closed until exit() ends them)
    for (auto q : sim->procs) if (q->prog == "spipe" && !q->alive && q->status) { auto &x = q->violations; x.erase(std::remove_if(x.begin(), x.end(), [](const string &m) { return (m.find("write() on descriptor") == 0 || m.find("read() on descriptor") == 0) && m.find("already closed (was a unix)") != string::npos; }), x.end()); }
    w.check_procs();
    for (auto q : sim->procs) {
        bool sp = q->prog == "spipe"; if (q->alive || q->hung) continue; if (q->termsig) continue;
        if (!sp && !hit.count(q->name)) w.v(fmt("%s exited (status %d) although nothing failed there: %s", q->name.c_str(), q->status, q->err_out.substr(0, 150).c_str()));
        if (!sp && q->status == 0) w.v(q->name + " exited with success after a failure");
        if (q->status && q->err_out.empty() && !mute.count(q->name)) w.v(fmt("%s exited with status %d without saying why", q->name.c_str(), q->status)); 
        sim->probe(sp ? (q->status ? "spipe_failed" : "spipe_succeeded") : "daemon_gave_up");
    }
    for (auto c : w.clients) if (!c->over()) w.v(fmt("connection %d neither completed nor ended", c->id)); else if (c->spipe_proc) { if (c->spipe_proc->alive) w.v(fmt("the client program of connection %d neither completed nor ended", c->id)); else if (!c->spipe_proc->termsig && c->spipe_proc->status == 0 && !touched.count("d") && !p.has("late_rst")) { sim->probe("spipe_success_checked"); w.check_complete(c); } }   // (a server that ends a connection early is not distinguishable from one that has finished)
    if (!sim->viol.empty()) return;
    for (auto n : {"d", "e"}) if (w.alive(n)) { Process *q = w.P(n); sim->probe("daemon_survived"); if (touched.count(n)) sim->probe("failing_daemon_survived"); if (w.active(q) || held_socks(w, q)) w.v(fmt("%s still holds %d socket(s) of ended connections", n, std::max(w.active(q), held_socks(w, q)))); }
    sim->blackhole.clear(); if (p.n("multi")) for (auto a : {"10.0.0.52:8002", "10.0.0.53:8002", "10.0.0.62:8003", "10.0.0.63:8003"}) sim->blackhole[a] = "rst";
    if (w.alive("d")) { Item c; c.set("id", 900).set("n", 3000).set("d_n", 3000); App *a = nullptr; if (!p.n("need_e", 1)) { c.kind = "spipe"; a = w.spipe(c, {"-o", "60"}); } else if (w.alive("e")) { c.kind = "conn"; a = w.client(c, w.e_addr); }
        if (a) { sim->run(sim->now + 25 * SEC); w.check_complete(a); sim->probe("served_afterwards"); } }
    w.check_procs();
    for (auto n : {"d", "e"}) if (w.alive(n)) w.kill(n, SIGTERM);
    map<string, bool> was; for (auto n : {"d", "e"}) was[n] = w.alive(n);
    sim->run(sim->now + 4 * SEC);
    for (auto n : {"d", "e"}) if (was[n]) { Process *q = w.P(n); if (q->alive) { w.v(fmt("%s did not exit after SIGTERM although idle", n)); continue; } 
        i64 ph = (q->t_exit - q->t_start + SEC) % (60 * SEC); if (p.n("named") || noatexit.count(n) || (q->t_exit - q->t_start > 50 * SEC && ph < 3 * SEC)) continue;      // (a lookup in progress keeps its own data; without atexit() nothing can be freed at exit)
        sim->probe("exit_checked"); i64 b = q->marks["exit_live_blocks"], f = q->marks["exit_live_fds"] - 3, m = q->marks["exit_bn"] + q->marks["exit_bnctx"];
        if (b || f > 0 || m) w.v(fmt("%s: after a failure it survived, %lld memory block(s), %lld descriptor(s) and %lld big number(s) were never given back", n, (long long)b, (long long)std::max<i64>(f, 0), (long long)m)); }
    w.check_procs();
}

// ---------------------------------------------------------------- P17
static void gen_p17(Plan &p, Rng &r, bool th) {
    net_params(p, r, r.chance(0.4)); p.p.kv.erase("fdbase"); if (p.p.n("segmax") < 500) p.p.set("segmax", 1460); if (p.p.n("lat") > 1000) p.p.set("lat", 1000); if (p.p.f("p_short", 0) > 0.1) p.p.setf("p_short", 0.05); if (p.p.n("sockbuf") > 66000) p.p.set("sockbuf", 100000); if (r.chance(0.3)) topo_params(p, r);
    string f = r.chance(0.9) ? "-f" : ""; if (r.chance(0.2)) f = jn(f, "-j"); p.p.set("eflags", f).set("dflags", f); bool spipe = r.chance(0.2); if (spipe) p.p.set("need_e", 0); p.p.set("pipebuf", r.chance(0.5) ? 65536 : 8192);
    i64 caps = 3 * std::max(p.p.n("sockbuf"), p.p.n("unixbuf")) + p.p.n("pipebuf"); int k = (int)r.range(1, th ? 4 : 3); p.p.set("resume", 20000 + r.range(0, 40000));
    for (int i = 0; i < k; i++) { i64 big = caps + 200000 + r.range(0, th ? 1500000 : 300000), small = r.range(4, 20000); int wh = (int)r.below(5);       // who stops reading: client, target, both, nobody
        bool cs = wh == 0 || wh == 1 || wh == 4, ts = wh == 2 || wh == 3 || wh == 4; if (i > 0 && r.chance(0.3)) cs = ts = false; if (!cs && !ts) big = small;
        Item &c = p.add(spipe ? "spipe" : "conn"); c.set("id", i + 1).set("at", r.range(0, 500)).set("n", ts ? big : small).set("d_n", cs ? big : small).set("chunk", r.chance(0.5) ? 65536 : 1500).set("d_chunk", r.chance(0.5) ? 65536 : 1500); i64 st = r.chance(0.4) ? 0 : r.range(1, 30000); if (cs) c.set("stop", st).set("resume", p.p.n("resume")); if (ts) c.set("d_stop", 4 + st).set("d_resume", p.p.n("resume")); }
}
static void run_p17(World &w) {
    Item &p = w.plan.p; bool spipe = !p.n("need_e", 1); start_tunnel(w); i64 T = p.n("resume") * MS; map<string, i64> base;
    sim->run(800 * MS); for (auto n : {"d", "e"}) if (w.alive(n)) base[n] = (i64)w.P(n)->heap.live_bytes;
    start_conns(w); int n = n_conn_items(w); auto cap = [&](const string &a) { return a[0] == '/' ? p.n("unixbuf") : p.n("sockbuf"); };
    i64 bound = (spipe ? 2 * p.n("unixbuf") + p.n("pipebuf") + 2 * 8192 : cap(w.e_addr)) + cap(w.d_addr) + cap(w.t_addr) + 24576; i64 worst = 0, wheap = 0; bool over = false, hover = false;
    map<App *, u64> at5; function<void()> tick = [&] {
        for (auto c : w.clients) { App *t = c->peer; i64 a = (i64)c->sent - (t ? (i64)t->rxn : 0), b = t ? (i64)t->sent - (i64)c->rxn : 0; worst = std::max(worst, std::max(a, b));
            if (std::max(a, b) > bound && !over) { over = true; w.v(fmt("connection %d: %lld bytes were taken from the %s without being delivered, the path has room for %lld", c->id, (long long)std::max(a, b), a > b ? "client" : "target", (long long)bound)); } }
        for (auto nm : {"d", "e"}) if (w.alive(nm)) { i64 h = (i64)w.P(nm)->heap.live_bytes - base[nm]; wheap = std::max(wheap, h / n); if (h > n * 32768 + 16384 && !hover) { hover = true; w.v(fmt("%s uses %lld bytes of memory for %d connections", nm, (long long)h, n)); } }
        sim->after(50 * MS, tick); }; sim->at(1000 * MS, tick);
    sim->at(12 * SEC, [&] { for (auto &a : w.apps) at5[a.get()] = a->sent; });
    sim->run(T - 100 * MS);
    w.check_procs();
    for (auto c : w.clients) { App *t = c->peer; bool cs = c->sc.has("stop"), ts = c->sc.has("d_stop"); if (!t) { w.v(fmt("connection %d never reached the target", c->id)); continue; }
        if (ts && at5[c] != c->sent) w.v(fmt("connection %d: the client could still send although the target has not read for %lld s", c->id, (long long)(T / SEC))); if (cs && at5[t] != t->sent) w.v(fmt("connection %d: the target could still send although the client has not read for %lld s", c->id, (long long)(T / SEC)));
        if (ts && c->sent < c->total) sim->probe("client_throttled"); if (cs && t->sent < t->total) sim->probe("target_throttled");
        if (!cs && (c->rxn != t->total)) w.v(fmt("connection %d: the direction to the client did not progress while the target was not reading: %llu of %llu", c->id, (unsigned long long)c->rxn, (unsigned long long)t->total));
        if (!ts && (t->rxn != c->total)) w.v(fmt("connection %d: the direction to the target did not progress while the client was not reading: %llu of %llu", c->id, (unsigned long long)t->rxn, (unsigned long long)c->total)); if (cs != ts) sim->probe("other_direction_progressed"); if (cs && ts) sim->probe("both_directions_stalled"); }
    if (!sim->viol.empty()) return;
    run_until_done(w, T / SEC + 120); w.check_procs(); for (auto c : w.clients) { w.check_complete(c); if (c->clean()) sim->probe("resumed_and_completed"); }
    w.stat["heap_per_connection_worst"] = (double)wheap; w.stat["undelivered_worst"] = (double)worst; (void)wheap;
    for (auto nm : {"d", "e"}) if (w.alive(nm) && (w.active(w.P(nm)) || held_socks(w, w.P(nm)))) w.v(fmt("%s still holds sockets of ended connections", nm));
}

// ---------------------------------------------------------------- P18
static void gen_p18(Plan &p, Rng &r, bool th) {
    net_params(p, r, r.chance(0.3)); p.p.kv.erase("p_eintr"); p.p.kv.erase("p_eagain"); p.p.kv.erase("p_spur"); if (p.p.n("lat") > 1000) p.p.set("lat", 1000); if (p.p.n("segmax") < 500) p.p.set("segmax", 1460); if (p.p.n("sockbuf") > 66000) p.p.set("sockbuf", 16384); p.p.set("unixbuf", 8192); if (r.chance(0.3)) topo_params(p, r);
    string f = r.chance(0.85) ? "-f" : ""; f = jn(f, "-o_300"); string fe = f, fd = f; static const char *S[] = {"idle", "hs_silent", "hs_partial", "e_hs", "est", "half_c", "half_t", "stall_c", "stall_t", "stall_both", "vanish", "pending", "half_stall_c", "half_stall_t", "rst_c", "garbage", "refused", "closed_c", "spipe_idle", "spipe_eof", "spipe_stall", "spipe_nochan"};
    int k = (int)r.range(1, th ? 6 : 4); for (int i = 0; i < k; i++) p.add("state").set("what", S[r.below(sizeof S / sizeof *S)]).set("id", 10 + i).set("at", r.range(0, 1500)).set("len", r.range(1, 319)).set("big", 400000);
    if (r.chance(0.3)) { string n = fmt("-n_%d", (int)r.range(1, 2)); if (r.chance(0.5)) fe = jn(fe, n); else fd = jn(fd, n); for (int i = 0; i < 3; i++) p.add("state").set("what", r.chance(0.5) ? "est" : "hs_silent").set("id", 30 + i).set("at", r.range(0, 2000)).set("len", 5).set("big", 4); }
    if (r.chance(0.3)) { p.p.set("named", 1); p.p.kv.erase("daddr"); p.p.kv.erase("taddr"); string rr = r.chance(0.5) ? "-r_1" : "-r_7"; fe = jn(fe, rr); fd = jn(fd, rr); p.p.set("dns", (i64)r.below(3)); } else if (r.chance(0.3)) { fe = jn(fe, "-R"); fd = jn(fd, "-R"); }
    if (r.chance(0.3)) { p.p.set("sigterm", 1); }
    p.p.set("eflags", fe).set("dflags", fd).set("W", r.range(10, th ? 200 : 60)); p.p.set("max_steps", 1500000);
    if (r.chance(0.04)) { p.items.clear(); p.p.set("waitdns", r.range(1, 3)); p.p.kv.erase("daddr"); p.p.kv.erase("taddr"); }      // start-up that waits for a name
}
static void run_p18(World &w) {
    Item &p = w.plan.p; w.allow_raw = true; i64 W = p.n("W"); w.strict_exit = true; string ssrv = "10.0.0.77:9999";
    if (i64 k = p.n("waitdns")) {   // 1: target, 2: own address, 3: source address
        static const int E[] = {-2, -3, -4}; const char *nm = k == 1 ? "target.example" : k == 2 ? "self.example" : "bound.example"; w.dns_err[nm] = E[W % 3]; if (k != 1) w.dns_tab["target.example"] = {"10.0.0.3"}; w.start_target();
        w.spawn("d", "spiped", {"-d", "-F", "-D", "-s", k == 2 ? "self.example:8002" : A(w.d_addr), "-t", k == 1 ? "target.example:8003" : A(w.t_addr), "-b", k == 3 ? "bound.example" : "[10.0.0.9]:0", "-k", "/key"});
        sim->run(2 * SEC); Process *q = w.P("d"); size_t l0 = w.dns_log.size(); u64 s0 = q->steps; sim->run((2 + W) * SEC); double nl = (double)(w.dns_log.size() - l0), st = (double)(q->steps - s0);
        if (!q->alive) { w.v("a daemon told to wait for name service gave up"); return; }
        if (nl > 1.2 * (double)W + 3) w.v(fmt("a daemon waiting for name service asked %.0f times in %lld seconds", nl, (long long)W)); else if (st > 60.0 * (double)W + 100) w.v(fmt("a daemon waiting for name service made %.0f system calls in %lld seconds", st, (long long)W)); else sim->probe("waiting_for_names");
        w.dns_err.clear(); w.dns_tab[nm] = {k == 1 ? "10.0.0.3" : k == 2 ? "10.0.0.2" : "10.0.0.9"}; sim->run(sim->now + 5 * SEC); if (!sim->listeners.count(A(w.d_addr)) && !sim->listeners.count("10.0.0.2:8002")) w.v("a daemon that waited for name service does not listen although the name resolves now"); w.check_procs(); return; }
    { auto old = sim->on_flow; sim->on_flow = [&w, old](Flow *f) { old(f); if (f->init_proc && f->src != "socketpair") { App *c = nullptr; auto i = w.parent.find(f->id); if (f->dst == w.d_addr) c = w.client_of(f); else if (f->dst == w.t_addr && i != w.parent.end()) if (Flow *wf = w.flow_by_id(i->second)) c = w.client_of(wf);
        if (c) { string k = c->sc.s("what"); if (k == "pending") f->behav = "drop"; if (k == "refused" && f->dst == w.t_addr) f->behav = "rst"; if (k == "e_hs" && f->dst == w.d_addr) f->link[1].blackhole = true; } } }; }
    if (p.n("named")) { w.dns_tab["server.example"] = {"10.0.0.2"}; w.dns_tab["target.example"] = {"10.0.0.3"}; w.start_target();
        vector<string> d = {"-d", "-F", "-s", A(w.d_addr), "-t", "target.example:8003", "-k", "/key"}, e = {"-e", "-F", "-s", A(w.e_addr), "-t", "server.example:8002", "-k", "/key"};
        for (auto &x : w.flags(p.s("dflags"))) d.push_back(x); for (auto &x : w.flags(p.s("eflags"))) e.push_back(x); w.spawn("d", "spiped", d); w.spawn("e", "spiped", e);
        sim->at(900 * MS, [&w, &p] { if (p.n("dns") == 1) w.dns_err["server.example"] = w.dns_err["target.example"] = -3; if (p.n("dns") == 2) w.dns_delay["server.example"] = w.dns_delay["target.example"] = -1; });
    } else start_tunnel(w);
    for (auto &i : w.plan.items) if (i.kind == "state") { Item it = i; w.at_ms(1000 + i.n("at"), [&w, it] { string k = it.s("what"); sim->fire("state_" + k); size_t len = (size_t)it.n("len"); i64 big = it.n("big");
        auto rawp = [&](function<void(RawPeer *)> f) { w.raw_on(sim->nat_connect(w.d_addr, nullptr), [&](RawPeer *q) { f(q); }); };
        auto app = [&](bool sp, function<void(Item &)> f) { Item c = it; c.kind = sp ? "spipe" : "conn"; c.set("n", 300).set("d_n", 300).set("fin", 9).set("d_fin", 9); f(c); App *a = sp ? w.spipe(c, {"-f", "-o", "300"}) : w.client(c, w.e_addr); a->sc = c; return a; }; i64 never = 100000000;
        if (k == "hs_silent") rawp([](RawPeer *) {}); else if (k == "hs_partial") rawp([&](RawPeer *q) { q->to_send = string(len, 'h'); }); else if (k == "garbage") rawp([&](RawPeer *q) { q->to_send = string(len + 400, 'g'); });
        else if (k == "est" || k == "e_hs" || k == "pending" || k == "refused") app(false, [](Item &) {}); else if (k == "half_c") app(false, [](Item &c) { c.set("fin", 1); }); else if (k == "half_t") app(false, [](Item &c) { c.set("d_fin", 1); });
        else if (k == "stall_c") app(false, [&](Item &c) { c.set("d_n", big).set("stop", (i64)len).set("resume", never); }); else if (k == "stall_t") app(false, [&](Item &c) { c.set("n", big).set("d_stop", (i64)len).set("d_resume", never); });
        else if (k == "stall_both") app(false, [&](Item &c) { c.set("n", big).set("d_n", big).set("stop", (i64)len).set("resume", never).set("d_stop", (i64)len + 4).set("d_resume", never); });
        else if (k == "half_stall_c") app(false, [&](Item &c) { c.set("fin", 1).set("d_n", big).set("stop", (i64)len).set("resume", never); }); else if (k == "half_stall_t") app(false, [&](Item &c) { c.set("d_fin", 1).set("n", big).set("d_stop", (i64)len + 4).set("d_resume", never); });
        else if (k == "vanish") { App *a = app(false, [&](Item &c) { c.set("n", big).set("d_n", big); }); auto f = a->s->flow->weak_from_this(); sim->after(700 * MS, [f] { if (auto x = f.lock()) x->link[0].blackhole = x->link[1].blackhole = true; }); }
        else if (k == "rst_c") app(false, [&](Item &c) { c.set("n", 5000).set("d_n", big).set("arx", (i64)len).set("arst", 1); }); else if (k == "closed_c") app(false, [&](Item &c) { c.set("fin", 1).set("d_fin", 1); });
        else if (k == "spipe_idle") app(true, [](Item &) {}); else if (k == "spipe_eof") app(true, [](Item &c) { c.set("fin", 1); }); else if (k == "spipe_stall") app(true, [&](Item &c) { c.set("d_n", big).set("stop", (i64)len).set("resume", never); }); else if (k == "spipe_nochan") app(true, [&](Item &c) { c.set("n", big).set("d_stop", (i64)len + 4).set("d_resume", never); });
    }); }
    w.common_items(); i64 T1 = 9 * SEC; sim->run(T1);
    if (p.n("sigterm")) { w.kill("d", SIGTERM); w.kill("e", SIGTERM); w.may_exit.insert("d"); w.may_exit.insert("e"); sim->fire("sigterm"); sim->run(T1 += 3 * SEC); }
    struct C { u64 polls, steps; size_t dns; }; vector<std::pair<Process *, C>> c0; for (auto &q : sim->procs) if (q->alive) c0.push_back({q, C{q->ncalls["poll"], q->steps, w.dns_log.size()}}); size_t dns0 = w.dns_log.size();
    sim->run(T1 + W * SEC); double nd = (double)(w.dns_log.size() - dns0);
    if (p.n("named")) { double rr = p.s("eflags").find("-r_1") != string::npos ? 1 : 7; nd = std::min(nd, 2 * ((double)W / rr + 2)); } else nd = std::min(nd, 6.0 * ((double)W / 60 + 2));
    w.check_procs(); for (auto &x : c0) { Process *q = x.first; double polls = (double)(q->ncalls["poll"] - x.second.polls), steps = (double)(q->steps - x.second.steps); sim->probe("quiet_window");
        w.stat["worst_polls_per_s"] = std::max(w.stat["worst_polls_per_s"], (polls - 8 * nd) / (double)W); w.stat["worst_calls_per_s"] = std::max(w.stat["worst_calls_per_s"], (steps - 30 * nd) / (double)W);
        if (polls > 4.0 * (double)W + 30 + 8 * nd) w.v(fmt("%s polled %.0f times during %lld quiet seconds (%s)", q->name.c_str(), polls, (long long)W, [&] { string o; for (auto &i : w.plan.items) if (i.kind == "state") o += " " + i.s("what"); return o; }().c_str()));
        else if (steps > 24.0 * (double)W + 200 + 40 * nd) w.v(fmt("%s made %.0f system calls during %lld quiet seconds", q->name.c_str(), steps, (long long)W)); }
}
extern const PropDef props5[] = {{"P15", gen_p15, run_p15}, {"P16", gen_p16, run_p16}, {"P17", gen_p17, run_p17}, {"P18", gen_p18, run_p18}, {nullptr, nullptr, nullptr}};
