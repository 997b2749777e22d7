// P01 P02 P03 P04: data integrity, completion, tampering, authentication
#include "props.h"

i64 size_pick(Rng &r, i64 big) {
    switch (r.below(7)) {
    case 0: return r.range(4, 40);
    case 1: { static const i64 e[] = {1023, 1024, 1025, 1027, 1028, 1029, 1059, 1060, 1061, 2047, 2048, 2049, 3072, 8192, 8479, 8480, 8481, 9000}; return e[r.below(18)]; }
    case 2: return r.range(4, 2000);
    case 3: return 1024 * r.range(1, 12) + r.range(-1, 1);
    case 4: case 5: return r.range(4, std::min<i64>(big, 20000));
    default: return r.range(4, big);
    }
}
i64 chunk_pick(Rng &r) { static const i64 c[] = {1, 3, 17, 100, 1000, 1023, 1024, 1025, 4096, 8192, 65536}; return c[r.below(11)]; }
static string jn(const string &a, const string &b) { return a.empty() || b.empty() ? a + b : a + "_" + b; }
void net_params(Plan &p, Rng &r, bool faults) {
    static const i64 lats[] = {20, 100, 1000, 10000}, segs[] = {7, 100, 536, 1060, 1061, 1460, 9000, 65535}, bufs[] = {4096, 8480, 16384, 65536, 200000};
    p.p.set("lat", lats[r.below(4)]).set("jit", r.chance(0.5) ? 0 : (i64)r.range(0, 2000)).set("segmax", segs[r.below(8)]).set("sockbuf", bufs[r.below(5)]).set("unixbuf", r.chance(0.5) ? 131072 : 8192);
    p.p.set("bsd", r.chance(0.3)).setf("p_yield", r.chance(0.5) ? 0.02 : 0.3);
    if (faults) { if (r.chance(0.6)) p.p.setf("p_short", r.chance(0.5) ? 0.05 : 0.5); if (r.chance(0.4)) p.p.setf("p_eintr", 0.03); if (r.chance(0.4)) p.p.setf("p_eagain", 0.05); if (r.chance(0.2)) p.p.setf("p_spur", 0.3); }
    if (r.chance(0.25)) p.p.set("sw", 1);
    if (r.chance(0.25)) p.p.set("sw_d", (i64)r.below(2)).set("sw_e", (i64)r.below(2));
    p.p.set("mono_ns", (i64)r.range(0, 999999999)); static const i64 up[] = {0, 1, 2147, 4294, 2147483, 4294967, 31536000, 400000000, 2147483640}; if (r.chance(0.3)) p.p.set("mono", up[r.below(9)]);       // how long the machine has been up
    { Rng q(r.next(), 31); static const i64 fb[] = {3, 17, 61, 253, 509, 1021, 1500}; if (q.chance(0.12)) p.p.set("fdbase", fb[q.below(7)]);                       // descriptors inherited from the parent
      static const i64 pn[] = {254, 65534, 0xfffffe, 0x7ffffffe, 0xfffffffe, 0xfffffffffe, 0xfffffffffffe, 0xfffffffffffffe, 0x7ffffffffffffff0, 0x0102030405060708}; if (q.chance(0.2)) p.p.set("pnum0", q.chance(0.8) ? pn[q.below(10)] : (i64)(q.next() >> 2)); }
    if (r.chance(0.4)) p.p.set("argstyle", (i64)r.range(1, 4000));
    if (r.chance(0.3)) { string x; if (r.chance(0.4)) x = jn(x, "-j"); if (r.chance(0.5)) x = jn(x, "-R"); else if (r.chance(0.5)) { static const char *rv[] = {"0", "60", "61.5", "3600", "86400", "1e6"}; x = jn(x, string("-r_") + rv[r.below(6)]); }
        if (r.chance(0.4)) { static const char *nv[] = {"0", "1000", "65535", "65536", "4294967295", "4294967296", "18446744073709551615"}; x = jn(x, string("-n_") + nv[r.below(7)]); } p.p.set("xf", x); }
}
// topology addresses: any mix of TCP and local sockets
void topo_params(Plan &p, Rng &r) {
    if (r.chance(0.3)) p.p.set("eaddr", "/run/e.sock"); if (r.chance(0.2)) p.p.set("daddr", "/run/d.sock"); if (r.chance(0.3)) p.p.set("taddr", "/run/t.sock");
    if (r.chance(0.15)) p.p.set("daddr", "[fd00::2]:8002"); if (r.chance(0.1)) p.p.set("taddr", "[fd00::3]:8003");
}
string role_flags(Rng &r) { static const char *f[] = {"", "", "", "-f", "-g", "-j"}; return f[r.below(6)]; }
Item &add_conn(Plan &p, Rng &r, int id, i64 at, i64 big) {
    bool spipe = false; (void)spipe;
    Item &c = p.add("conn"); c.set("id", id).set("at", at).set("n", size_pick(r, big)).set("d_n", size_pick(r, big)).set("chunk", chunk_pick(r)).set("d_chunk", chunk_pick(r));
    if (c.n("chunk") < 50) c.set("n", std::min<i64>(c.n("n"), 3000)); if (c.n("d_chunk") < 50) c.set("d_n", std::min<i64>(c.n("d_n"), 3000));
    if (r.chance(0.1)) c.set("n", 0); if (r.chance(0.1)) c.set("d_n", 0);
    if (r.chance(0.3)) c.set("gap", r.range(1, 3000)); if (r.chance(0.3)) c.set("d_gap", r.range(1, 3000));
    if (r.chance(0.2)) c.set("rdsize", chunk_pick(r)); if (r.chance(0.2)) c.set("d_rdsize", chunk_pick(r));
    if (c.n("rdsize", 9999) < 50) c.set("d_n", std::min<i64>(c.n("d_n"), 4000)); if (c.n("d_rdsize", 9999) < 50) c.set("n", std::min<i64>(c.n("n"), 4000));
    if (r.chance(0.2)) c.set("rdelay", r.range(1, 500)); if (r.chance(0.2)) c.set("d_rdelay", r.range(1, 500));
    if (r.chance(0.2)) c.set("fin", 0); else if (r.chance(0.2)) c.set("d_fin", 0); else if (r.chance(0.15)) c.set("fin", 2); else if (r.chance(0.15)) c.set("d_fin", 2);
    if (r.chance(0.25)) c.set("d_wait", r.range(0, c.n("n")));
    else if (r.chance(0.15)) c.set("wait", r.range(0, c.n("d_n") / 2)).set("n", std::max<i64>(c.n("n"), 4));
    if (c.has("wait")) { c.set("wait", 0); }
    if (r.chance(0.2)) c.set("stop", r.range(0, c.n("d_n"))).set("resume", at + r.range(1, 4000)); if (r.chance(0.2)) c.set("d_stop", r.range(0, c.n("n"))).set("d_resume", at + r.range(1, 4000));
    if (r.chance(0.2)) c.set("findelay", r.range(1, 30000)); if (r.chance(0.2)) c.set("d_findelay", r.range(1, 30000));
    if (c.n("n") < 4) c.kv.erase("fin");            // a client that says nothing must end its stream itself
    if (c.n("fin", 1) != 1) c.kv.erase("d_fin");    // at least one side ends on its own
    return c;
}
Item &simple_conn(Plan &p, Rng &r, int id, i64 at, i64 n, i64 dn) { Item &c = p.add("conn"); c.set("id", id).set("at", at).set("n", n).set("d_n", dn).set("chunk", r.chance(0.5) ? 4096 : 1000).set("d_chunk", r.chance(0.5) ? 4096 : 1000); return c; }
// the command-line client's standard output ends only when it exits, so its user must end standard input itself
void to_spipe(Item &c) { c.kind = "spipe"; if (c.n("fin", 1) != 1) c.kv.erase("fin"); }
int held_socks(World &w, Process *p) { int k = 0; for (auto &e : p->fds) if (e.f && e.f->sock() && e.f->sock()->st != Sock::S_LISTEN && e.f->sock()->st != Sock::S_BOUND) { Sock *s = e.f->sock(); if (s->flow && s->flow->src != "socketpair") k++; } return k; }
// start the standard two-daemon tunnel
void start_tunnel(World &w, bool target) {
    Item &p = w.plan.p;
    if (target) w.start_target();
    vector<string> d = {"-d", "-F", "-s", A(w.d_addr), "-t", A(w.t_addr), "-k", p.s("dkey", "/key")}, e = {"-e", "-F", "-s", A(w.e_addr), "-t", A(w.d_addr), "-k", p.s("ekey", "/key")};
    for (auto &x : w.flags(p.s("dflags"))) d.push_back(x); for (auto &x : w.flags(p.s("eflags"))) e.push_back(x);
    if (p.n("need_d", 1)) w.spawn("d", "spiped", d); if (p.n("need_e", 1)) w.spawn("e", "spiped", e);
}
void start_conns(World &w) {
    for (auto &i : w.plan.items) { Item it = i;
        if (i.kind == "conn") w.at_ms(1000 + i.n("at"), [&w, it] { w.client(it, w.e_addr); });
        else if (i.kind == "spipe") w.at_ms(1000 + i.n("at"), [&w, it] { w.spipe(it, w.flags(it.s("flags"))); });
        else if (i.kind == "refconn") w.at_ms(1000 + i.n("at"), [&w, it] { w.ref_client(it, w.d_addr, it.s("key", w.key.c_str())); }); }
}
int n_conn_items(World &w) { int n = 0; for (auto &i : w.plan.items) if (i.kind == "conn" || i.kind == "spipe" || i.kind == "refconn") n++; return n; }
bool run_until_done(World &w, i64 tmax_s) {
    int n = n_conn_items(w); i64 lim = tmax_s * SEC;
    sim->run(lim, [&w, n, k = (u64)0]() mutable { if (k++ & 15) return false; if ((int)w.clients.size() < n) return false; for (auto &a : w.apps) if (!a->over()) return false; return true; });
    // settle
    if (sim->now < lim) sim->run(sim->now + 3 * SEC);
    return w.all_over();
}
void shrink_for_seg(Plan &p) { if (p.p.n("segmax") < 50) for (auto &i : p.items) { if (i.has("n")) i.set("n", std::min<i64>(i.n("n"), 6000)); if (i.has("d_n")) i.set("d_n", std::min<i64>(i.n("d_n"), 6000)); }
    for (auto &i : p.items) if (i.has("d_wait")) i.set("d_wait", std::min(i.n("d_wait"), i.n("n"))); }

// ---------------------------------------------------------------- P01
static void gen_p01(Plan &p, Rng &r, bool th) {
    net_params(p, r, true); topo_params(p, r); p.p.set("eflags", role_flags(r)).set("dflags", role_flags(r)); if (p.p.s("eflags") == "-f" && p.p.s("dflags") == "-g") p.p.set("dflags", ""); if (p.p.s("dflags") == "-f" && p.p.s("eflags") == "-g") p.p.set("eflags", "");
    int n = (int)r.range(1, 5); i64 big = th ? 150000 : 60000; bool faulty = r.chance(0.7);
    for (int i = 0; i < n; i++) { Item &c = add_conn(p, r, i + 1, r.chance(0.5) ? 0 : r.range(0, 3000), big);
        if (r.chance(0.15) && !p.p.has("daddr")) to_spipe(c);
        if (faulty && r.chance(0.3)) { if (r.chance(0.5)) c.set("atx", r.range(0, c.n("n"))); else c.set("arx", r.range(1, std::max<i64>(1, c.n("d_n")))); c.set("arst", (i64)r.below(2)); }
        if (faulty && r.chance(0.2)) { if (r.chance(0.5)) c.set("d_atx", r.range(0, c.n("d_n"))); else c.set("d_arx", r.range(4, std::max<i64>(4, c.n("n")))); c.set("d_arst", (i64)r.below(2)); } }
    if (faulty) {
        int k = (int)r.range(0, 3);
        for (int i = 0; i < k; i++) switch (r.below(6)) {
            case 0: { i64 t = 1000 + r.range(0, 4000); const char *who = r.chance(0.5) ? "e" : "d"; p.add("kill").set("at", t).set("who", who).set("sig", r.chance(0.7) ? 9 : 15); p.add("restart").set("at", t + r.range(1, 2000)).set("who", who); break; }
            case 1: p.add("pause").set("at", 1000 + r.range(0, 3000)).set("who", r.chance(0.5) ? "e" : "d").set("for", r.range(1, 3000)); break;
            case 2: case 3: p.add("stall").set("at", 1000 + r.range(0, 3000)).set("flow", r.range(0, 3 * n)).set("dir", (i64)r.below(3)).set("for", r.range(1, 3000)); break;
            case 4: p.add("rst").set("at", 1000 + r.range(0, 3000)).set("flow", r.range(0, 3 * n)); break;
            case 5: { int m = (int)r.range(1, 3); for (int q = 0; q < m; q++) add_conn(p, r, 100 + i * 5 + q, 2000 + r.range(0, 4000), 5000); break; }
        }
    }
    shrink_for_seg(p);
}
static void run_p01(World &w) {
    bool faulty = false; for (auto &i : w.plan.items) if (i.kind == "kill") faulty = true;
    if (faulty) { w.may_exit.insert("e"); w.may_exit.insert("d"); }
    start_tunnel(w); w.common_items(); start_conns(w);
    run_until_done(w, 300);
    for (auto &a : w.apps) { w.stat["app_bytes_delivered"] += (double)a->rxn; if (a->clean()) w.stat["connections_completed"]++; else w.stat["connections_broken"]++; }
    w.check_procs();
}
// ---------------------------------------------------------------- P02
static void gen_p02(Plan &p, Rng &r, bool th) {
    net_params(p, r, true); topo_params(p, r); string f = r.chance(0.5) ? "-f" : r.chance(0.3) ? "-g" : ""; p.p.set("eflags", f).set("dflags", f);
    int n = (int)r.range(1, 6); i64 big = th ? 200000 : 80000;
    for (int i = 0; i < n; i++) { Item &c = add_conn(p, r, i + 1, r.chance(0.5) ? 0 : r.range(0, 3000), big); if (r.chance(0.1)) c.set("d_findelay", r.range(60000, 4000000)); }
    if (r.chance(0.06)) { Item &c = p.items[r.below(p.items.size())]; bool up = r.chance(0.5); string q = up ? "d_" : ""; p.p.set("sockbuf", r.range(2500, 9000)).set("unixbuf", r.range(4000, 9000)); c.set(up ? "n" : "d_n", r.range(40000, 80000)).set(up ? "chunk" : "d_chunk", 4096).set((q + "rdsize").c_str(), 9000).set((q + "stop").c_str(), r.range(0, 2000)).set((q + "resume").c_str(), c.n("at") + r.range(5000, r.chance(0.8) ? 200000 : 2000000)); c.kv.erase("gap"); c.kv.erase("d_gap"); c.kv.erase(q + "wait"); }      // a receiver that pauses for a long time with the whole path full
    if (r.chance(0.02)) { Item &c = p.items[r.below(p.items.size())]; static const i64 D[] = {2147, 4295, 7200, 7200, 86400}; i64 t = D[r.below(5)] + r.range(0, 5000); c.set(r.chance(0.5) ? "findelay" : "d_findelay", t * 1000); p.p.set("lim", 2 * t + 8000).set("max_steps", 30000000); }      // half closed for hours or a day
    if (r.chance(0.4)) { int k = (int)r.range(1, 2); for (int i = 0; i < k; i++) if (r.chance(0.5)) p.add("stall").set("at", 1000 + r.range(0, 3000)).set("flow", r.range(0, 3 * n)).set("dir", (i64)r.below(3)).set("for", r.range(1, 2000)); else p.add("pause").set("at", 1000 + r.range(0, 3000)).set("who", r.chance(0.5) ? "e" : "d").set("for", r.range(1, 2000)); }
    if (r.chance(0.2)) p.p.set("tn", r.range(4, 3000));
    if (r.chance(0.15)) { int k = (int)r.range(1, 3); for (int i = 0; i < k; i++) p.add("fault").set("proc", r.chance(0.5) ? "e" : "d").set("call", "shutdown").set("nth", r.range(1, 2 * n)).set("err", r.chance(0.5) ? ENOTCONN : ECONNRESET).set("mode", "after"); }       // simultaneous closes: the stream is ended, but the call reports an error
    for (auto &i : p.items) if (p.p.has("tn") && i.has("d_wait")) i.kv.erase("d_wait");
    shrink_for_seg(p);
}
static void run_p02(World &w) {
    start_tunnel(w); w.common_items(); start_conns(w);
    run_until_done(w, w.plan.p.n("lim", 8000));
    w.check_procs();
    for (auto c : w.clients) w.check_complete(c);
    for (auto t : w.targets) if (!t->clean() && !t->peer) w.v(fmt("target connection %d (no data from its client) did not end cleanly: eof=%d fin=%d err=%d", t->id, t->eof, t->fin_sent, t->err));
    // both daemons have closed everything that belongs to ended connections
    for (const char *n : {"e", "d"}) if (w.alive(n)) { int k = 0; for (auto &e : w.P(n)->fds) if (e.f && e.f->sock() && e.f->sock()->st != Sock::S_LISTEN) { Sock *s = e.f->sock(); if (s->flow && s->flow->src != "socketpair") k++; } if (k) w.v(fmt("%s still holds %d socket(s) after every connection finished in both directions", n, k)); }
    for (auto &a : w.apps) { w.stat["app_bytes_delivered"] += (double)a->rxn; if (a->clean()) w.stat["connections_completed"]++; }
}
extern const PropDef props1[] = {{"P01", gen_p01, run_p01}, {"P02", gen_p02, run_p02}, {nullptr, nullptr, nullptr}};
extern const PropDef props2[], props3[], props4[], props5[], props6[], props7[], props8[], props9[];
const PropDef *find_prop(const string &id) { for (auto t : {props1, props2, props3, props4, props5, props6, props7, props8, props9}) for (auto d = t; d->id; d++) if (id == d->id) return d; return nullptr; }
