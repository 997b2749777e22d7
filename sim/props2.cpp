// P03 P04 P05 P06 P07: tampering, authentication, wire format, freshness, forward secrecy
#include "props.h"

static const size_t HSB = 320;
static const string Y_ONE = string(255, 0) + string(1, 1);

// ---------------------------------------------------------------- P03
static void gen_p03(Plan &p, Rng &r, bool th) {
    net_params(p, r, r.chance(0.6)); topo_params(p, r); string f = r.chance(0.7) ? "-f" : r.chance(0.3) ? "-g" : ""; p.p.set("eflags", f).set("dflags", f); if (f.empty() && r.chance(0.3)) p.p.set(r.chance(0.5) ? "eflags" : "dflags", "-g");
    int n = (int)r.range(1, 4); i64 big = th ? 60000 : 25000;
    for (int i = 0; i < n; i++) { Item &c = add_conn(p, r, i + 1, r.chance(0.6) ? 0 : r.range(0, 1500), big); c.kv.erase("findelay"); c.kv.erase("d_findelay"); if (c.n("n") < 4) c.set("n", 4 + r.range(0, 3000)); if (r.chance(0.1) && !p.p.has("daddr")) to_spipe(c); }
    static const char *W[] = {"flip", "flip", "flip", "lenmac", "macflip", "set0", "insert", "delete", "drop", "dup", "replay", "reflect", "splice", "swap", "inject", "trunc", "append", "hsflip", "hsflip", "hsflip"};
    int k = (int)r.range(1, 3); bool align = r.chance(0.5);
    for (int i = 0; i < k; i++) {
        string what = W[r.below(20)]; Item &o = p.add("tamper"); i64 pk = r.chance(0.4) ? 0 : r.range(0, 12);
        o.set("flow", r.range(0, n - 1)).set("dir", (i64)r.below(2)).set("pkt", pk).set("what", what).set("off", r.chance(0.2) ? (r.chance(0.5) ? 1023 : 1059) : r.range(0, 1059)).set("bit", (i64)r.below(8));
        if (what == "hsflip") { static const i64 B[] = {0, 32, 288, 320}; int q = (int)r.below(3); i64 a = B[q], b = B[q + 1] - 1; o.set("off", r.chance(0.4) ? (r.chance(0.5) ? a : b) : r.range(a, b)); }      // a byte of the nonce, of the key exchange value or of its MAC
        if (what == "insert" || what == "delete") o.set("len", align && r.chance(0.5) ? 1060 : r.range(1, 1500));
        if (what == "replay" || what == "reflect" || what == "splice") o.set("src", r.chance(0.6) ? pk : r.range(0, 12));
    }
    shrink_for_seg(p);
}
static void run_p03(World &w) {
    sim->record_wire = true;
    w.on_wire = [&w](Flow *f) { size_t k = w.wire.size() - 1; auto t = make_shared<Tamper>(&w, w.plan.seed * 64 + k); for (auto &i : w.plan.items) if (i.kind == "tamper" && (size_t)i.n("flow") == k) t->ops.push_back(i); f->mitm = t; };
    start_tunnel(w); w.common_items(); start_conns(w);
    run_until_done(w, 120);
    sim->run(sim->now + 3 * SEC);
    w.check_procs();
    set<App *> touched; int eff = 0;
    for (auto f : w.wire) {
        auto t = dynamic_cast<Tamper *>(f->mitm.get()); App *c = w.client_of(f), *tg = w.target_of(f); bool any = false;
        for (int d = 0; d < 2; d++) {
            const string &a = f->sent[d], &b = f->recvd[d]; size_t D = 0, m = std::min(a.size(), b.size()); while (D < m && a[D] == b[D]) D++;
            if (t->cut[d] || b.size() < a.size()) any = true;          // truncated: data may be missing
            if (D == b.size()) continue;                               // what arrived is a prefix of what was sent
            any = true; eff++; sim->probe("effective_tampering");
            size_t idx = D < HSB ? 0 : (D - HSB) / PKT; App *rx = d == 0 ? tg : c;
            if (rx && rx->rxn > PLAIN * idx) w.v(fmt("direction %d modified at wire byte %zu (packet %zu), but the receiving application got %llu bytes, more than the packets before it can carry", d, D, idx, (unsigned long long)rx->rxn));
            if (b.size() >= HSB + PKT * (idx + 1) || (D < HSB && b.size() >= HSB)) {
                if (c && !c->over()) w.v(fmt("connection of client %d was not torn down for the client after a modified packet was received", c->id));
                if (tg && !tg->over()) w.v(fmt("connection of target %d was not torn down for the target after a modified packet was received", tg->id));
                sim->probe("teardown_checked");
            }
        }
        if (any && c) touched.insert(c);
    }
    for (auto c : w.clients) { w.stat["app_bytes_delivered"] += (double)c->rxn; if (!touched.count(c)) { w.check_complete(c); w.stat["untouched_connections_complete"]++; } else w.stat["tampered_connections"]++; }
    for (const char *n : {"e", "d"}) if (w.alive(n)) { int k = held_socks(w, w.P(n)); if (k && w.all_over()) w.v(fmt("%s still holds %d socket(s) after every connection ended", n, k)); }
}

// ---------------------------------------------------------------- P04
static const char *EVIL[] = {"wrongkey", "wrongkey", "garbage", "replay", "reflect", "mutate", "cut", "partkey", "cross", "oneshot", "macless"};
static void gen_p04(Plan &p, Rng &r, bool) {
    net_params(p, r, r.chance(0.5)); if (r.chance(0.5)) topo_params(p, r); bool dec = r.chance(0.55);
    string fl = r.chance(0.5) ? "-f" : ""; p.p.set("eflags", fl).set("dflags", fl).set("role", dec ? "dec" : "enc");
    if (r.chance(0.4)) p.p.set("tn", r.range(1, 5000));                      // a target that speaks first
    if (dec && r.chance(0.35)) p.p.set("tslow", r.range(1, 9000));           // the target connect is slow: the handshake finishes first
    if (!dec && r.chance(0.3)) p.p.set("tslow", r.range(1, 4000));
    if (r.chance(0.15)) p.p.set("pwspipe", 1);
    int n = (int)r.range(1, 4); i64 t = 4000;
    { Item &h = simple_conn(p, r, 1, 0, r.range(4, 4000), r.range(4, 4000)); (void)h; }
    for (int i = 0; i < n; i++) {
        string k = EVIL[r.below(11)]; Item &e = p.add("evil"); e.set("what", k).set("id", 50 + i).set("at", t + r.range(0, 3000)).set("n", r.range(4, 5000)).set("gap", r.chance(0.5) ? 0 : r.range(1, 20000)).set("frag", r.chance(0.5) ? 100000 : r.range(1, 400));
        e.set("off", r.range(0, 319)).set("bit", (i64)r.below(8)).set("dir", (i64)r.below(2)).set("src", (i64)r.below(2)).set("len", r.chance(0.3) ? r.range(0, 40) : r.range(0, 4000)).set("mode", (i64)r.below(5)).set("chunk", 1000).set("fin", (i64)1);
        if (r.chance(0.3)) e.set("nopfs", 1);
    }
    if (r.chance(0.4)) { p.add("kill").set("at", 3500).set("who", dec ? "d" : "e").set("sig", 9); p.add("restart").set("at", 3600).set("who", dec ? "d" : "e"); }
    if (r.chance(0.5)) simple_conn(p, r, 2, t + r.range(0, 3000), r.range(4, 3000), r.range(4, 3000));
    if (!dec) p.p.set("spipe", (i64)r.chance(0.35));
}
static string junk(u64 seed, size_t n) { Rng r(seed, 4242); string s(n, 0); for (auto &c : s) c = (char)(r.next() >> 21); return s; }
static string evil_key(const string &key, i64 mode) { switch (mode) { case 0: return ""; case 1: return key.substr(0, key.size() - 1); case 2: return key + "\n"; case 3: return key + string(1, 0); default: return "x" + key; } }
static void feed_raw(RawPeer *q, const Item &i) { q->gap = i.n("gap") * US; q->frag = (size_t)std::max<i64>(1, i.n("frag", 100000)); }
// flips or cuts inside the handshake of an otherwise honest session
static shared_ptr<Tamper> hs_tamper(World &w, const Item &i, u64 seed) { auto t = make_shared<Tamper>(&w, seed); Item o; o.kind = "tamper"; o.set("dir", i.n("dir")).set("what", i.s("what") == "cut" ? "hscut" : "hsflip").set("off", i.n("off")).set("bit", i.n("bit")); t->ops.push_back(o); return t; }

static void run_p04(World &w) {
    Item &p = w.plan.p; bool dec = p.s("role") == "dec", spipe = p.n("spipe"); sim->record_wire = true; i64 o = 5 * SEC;
    w.may_exit.insert("e"); w.strict_exit = false;
    struct Ev { Item i; Flow *f = nullptr; App *a = nullptr; RawPeer *r = nullptr; i64 t0 = 0; App *cl = nullptr; }; vector<shared_ptr<Ev>> evs;
    string rec[2]; w.common_items(); map<App *, shared_ptr<Ev>> bycm; auto *byc = &bycm;
    if (p.n("tslow")) sim->at(3900 * MS, [&w, &p] { sim->blackhole[p.s("role") == "dec" ? w.t_addr : w.d_addr] = fmt("slow:%lld", (long long)p.n("tslow")); });
    auto grab = [&] { if (rec[0].empty()) for (auto f : w.wire) if (f->recvd[0].size() > HSB && f->recvd[1].size() > HSB) { rec[0] = f->recvd[0]; rec[1] = f->recvd[1]; break; } };
    w.on_wire = [&](Flow *f) { if (!dec) { App *lc = w.client_of(f); auto z = byc->find(lc); if (lc && z != byc->end()) { string k = z->second->i.s("what"); if (k == "mutate" || k == "cut") f->mitm = hs_tamper(w, z->second->i, z->second->i.n("id")); } } };
    if (dec) {
        start_tunnel(w); start_conns(w);
        for (auto &it : w.plan.items) if (it.kind == "evil") { Item i = it; auto ev = make_shared<Ev>(); ev->i = i; evs.push_back(ev);
            w.at_ms(i.n("at"), [&, i, ev] { grab(); string k = i.s("what"); ev->t0 = sim->now; if (!w.alive("d")) return; sim->fire("evil_peer_" + k);
                if (k == "wrongkey" || k == "partkey") { string bad = k == "partkey" ? evil_key(w.key, i.n("mode")) : "not the key " + std::to_string(i.n("id")); ev->a = w.ref_client(i, w.d_addr, bad); ev->a->evil = true; ev->f = ev->a->s->flow.get(); }
                else if (k == "macless") { ev->a = w.ref_client(i, w.d_addr, w.key); ev->a->evil = true; ev->a->ref->bad_hello_mac = true; ev->f = ev->a->s->flow.get(); }
                else if (k == "mutate" || k == "cut") { ev->a = w.ref_client(i, w.d_addr, w.key); ev->a->evil = true; ev->f = ev->a->s->flow.get(); auto t = hs_tamper(w, i, i.n("id")); ev->f->mitm = t; }
                else { string k2 = k; ev->r = w.raw_on(sim->nat_connect(w.d_addr, nullptr), [&, i, k2](RawPeer *q) { feed_raw(q, i);
                        if (k2 == "garbage") q->to_send = junk(w.plan.seed + i.n("id"), (size_t)i.n("len"));
                        else if (k2 == "replay") q->to_send = rec[0].empty() ? junk(7, 3000) : rec[i.n("src") ? 0 : 0];
                        else if (k2 == "oneshot") q->to_send = (rec[0].empty() ? junk(7, 3000) : rec[0].substr(0, 32)) + Y_ONE + junk(9, 32) + junk(3, 2120);
                        else if (k2 == "reflect") { string *last = new string; (void)last; q->on_rx = [](RawPeer *z) { z->to_send += z->rx; z->rx.clear(); z->kick(); }; if (i.n("mode") & 1) q->to_send = junk(5, 32); delete last; }
                        else if (k2 == "cross") q->to_send = rec[1].empty() ? junk(7, 3000) : rec[1];        // messages of the other role
                    });
                    ev->f = ev->r->s->flow.get(); }
            }); }
    } else {
        // encrypting side (daemon or client) against servers that do not hold the key; the honest server comes first
        w.start_target();
        vector<string> e = {"-e", "-F", "-s", A(w.e_addr), "-t", A(w.d_addr), "-k", "/key"}; for (auto &x : w.flags(p.s("eflags"))) e.push_back(x);
        w.spawn("e", "spiped", e);
                string *r0 = rec;
        sim->nat_listen(w.d_addr, nullptr, [&, byc, r0](SockP s) {
            grab();
            shared_ptr<Ev> ev; App *lc = w.client_of(s->flow.get()); if (lc) { auto z = byc->find(lc); if (z != byc->end()) ev = z->second; }
            if (!ev) { App *a = w.new_target(s); a->ref.reset(new RefEnd(true, file_key(w.key), w.plan.seed * 1000 + a->id)); a->ref->nopfs = p.s("eflags") == "-f"; return; }
            Item i = ev->i; string k = i.s("what"); ev->f = s->flow.get(); ev->t0 = sim->now; sim->fire("evil_server_" + k);
            if (k == "wrongkey" || k == "partkey" || k == "macless" || k == "mutate" || k == "cut") { App *a = w.new_target(s); string bad = k == "partkey" ? evil_key(w.key, i.n("mode")) : k == "wrongkey" ? "not the key" : w.key; a->ref.reset(new RefEnd(true, file_key(bad), w.plan.seed * 1000 + a->id)); a->evil = true; a->total = 2000; a->ref->nopfs = i.n("nopfs"); if (k == "macless") a->ref->bad_hello_mac = true; ev->a = a; }
            else ev->r = w.raw_on(s, [&, i, k, r0](RawPeer *q) { feed_raw(q, i);
                if (k == "garbage") q->to_send = junk(w.plan.seed + i.n("id"), (size_t)i.n("len"));
                else if (k == "replay") q->to_send = r0[1].empty() ? junk(7, 3000) : r0[1];
                else if (k == "cross") q->to_send = r0[0].empty() ? junk(7, 3000) : r0[0];
                else if (k == "oneshot") q->to_send = (r0[1].empty() ? junk(7, 3000) : r0[1].substr(0, 32)) + Y_ONE + junk(9, 32) + junk(3, 2120);
                else if (k == "reflect") { q->on_rx = [](RawPeer *z) { z->to_send += z->rx; z->rx.clear(); z->kick(); }; } });
        });
        start_conns(w);
        for (auto &it : w.plan.items) if (it.kind == "evil") { Item i = it; auto ev = make_shared<Ev>(); ev->i = i; evs.push_back(ev);
            w.at_ms(i.n("at"), [&, i, ev, byc, spipe] { if (!spipe && !w.alive("e")) return; ev->t0 = sim->now; Item c = i; if (spipe) { vector<string> fl = w.flags(p.s("eflags")); ev->cl = w.spipe(c, fl); } else ev->cl = w.client(c, w.e_addr); (*byc)[ev->cl] = ev; }); }
    }
    sim->run(40 * SEC);
    w.check_procs();
    for (auto &ev : evs) {
        if (!ev->f) continue; Flow *f = ev->f; string k = ev->i.s("what"); const char *who = dec ? "decrypting daemon" : spipe ? "command-line client" : "encrypting daemon"; int me = dec ? 1 : 0;
        if (!f->established) continue;
        bool altered = true, mut = k == "mutate" || k == "cut";
        if (mut) { // did the change reach the side under test, or only the honest peer?
            const string &a = f->sent[1 - me], &b = f->recvd[1 - me]; altered = b.size() < HSB || a.compare(0, HSB, b, 0, HSB) != 0; size_t od = me == 1 ? 1 : 0;
            if (!altered && f->sent[od].size() >= HSB && f->recvd[od].compare(0, HSB, f->sent[od], 0, HSB) == 0) continue;   // nothing in the handshake changed
            if (!altered) { // the peer saw a changed message: whatever it answered afterwards depends on it
                continue; }
            sim->probe("handshake_mutation_reached");
        }
        sim->probe("evil_peer_checked");
        if (f->sent_total[me] > HSB) w.v(fmt("%s sent %llu bytes to a %s peer, more than its handshake messages", who, (unsigned long long)f->sent_total[me], k.c_str()));
        if (dec) { App *t = w.target_of(f); if (t && t->rxn) w.v(fmt("target received %llu bytes on behalf of a %s peer", (unsigned long long)t->rxn, k.c_str())); }
        else if (ev->cl && ev->cl->rxn) w.v(fmt("local application received %llu bytes from a %s server", (unsigned long long)ev->cl->rxn, k.c_str()));
        if (!f->closed_by_end[me] && sim->now - ev->t0 > o + 6 * SEC + p.n("tslow") * MS) w.v(fmt("%s kept the connection of a %s peer open", who, k.c_str()));
        if (!dec && spipe && ev->cl) { Process *sp = ev->cl->spipe_proc; if (sp && sp->alive) w.v(fmt("command-line client still running after a %s server", k.c_str())); else if (sp && sp->status == 0 && !sp->termsig) w.v(fmt("command-line client reported success against a %s server", k.c_str())); }
        else if (!dec && ev->cl && !ev->cl->over()) w.v(fmt("client of a %s server was not dropped", k.c_str()));
    }
    set<App *> ec; for (auto &ev : evs) { if (ev->a) ec.insert(ev->a); if (ev->cl) ec.insert(ev->cl); }
    bool killed = false; for (auto &i : w.plan.items) if (i.kind == "kill") killed = true;
    for (auto c : w.clients) if (!ec.count(c) && c->sc.kind == "conn" && (!killed || c->id != 1)) { if (p.n("tslow") > 4500) continue; w.check_complete(c); w.stat["honest_connections"]++; }
    w.stat["evil_peers"] += (double)evs.size();
}

// ---------------------------------------------------------------- P05
static void gen_p05(Plan &p, Rng &r, bool th) {
    net_params(p, r, r.chance(0.6)); if (r.chance(0.4)) topo_params(p, r); int mode = (int)r.below(4); // 0 ref client -> d ; 1 e -> ref server ; 2 spipe -> ref server ; 3 e -> d, eavesdropped
    p.p.set("mode", mode).set("maxpkt", r.chance(0.4) ? 1024 : r.range(1, 1024)); if (mode == 2) p.p.kv.erase("daddr");
    string fe = r.chance(0.4) ? "-f" : r.chance(0.2) ? "-g" : "", fd = fe; if (mode == 3) fe = fd = "-f"; p.p.set("eflags", fe).set("dflags", fd); if (fe == "-f" || r.chance(0.2)) p.p.set("rnopfs", fe == "-g" ? 0 : 1);
    p.p.set("keylen", r.chance(0.5) ? 26 : r.range(0, 9000));
    int n = (int)r.range(1, 3); i64 big = r.chance(0.06) ? 400000 : 30000;
    for (int i = 0; i < n; i++) { Item &c = add_conn(p, r, i + 1, r.chance(0.5) ? 0 : r.range(0, 1500), big); c.kv.erase("findelay"); c.kv.erase("d_findelay"); c.set("maxpkt", p.p.n("maxpkt")); if (p.p.n("maxpkt") < 64) { c.set("n", std::min<i64>(c.n("n"), 20000)); c.set("d_n", std::min<i64>(c.n("d_n"), 20000)); }
        if (mode == 0) c.kind = "refconn"; if (mode == 2) to_spipe(c);
        if (c.n("n") < 4 && mode != 3) { c.set("n", 4); } }
    if (mode != 3 && r.chance(0.3)) { static const i64 L[] = {0, 1025, 1026, 2048, 65536, 0x7fffffff, 0xffffffffLL, 0x80000000LL, 0x01000400, 0x10001}; p.add("badlen").set("pkts", r.range(0, 3)).set("len", L[r.below(10)]).set("at", 4000 + r.range(0, 1000)).set("id", 90).set("n", r.range(4, 3000)); }
    if (r.chance(th ? 0.005 : 0.0005)) { p.items.clear(); Item &c = simple_conn(p, r, 1, 0, 70000, 70000); p.p.set("pnum0", 0); p.p.set("maxpkt", 1).set("segmax", 9000).set("p_short", 0).set("p_eagain", 0).set("p_eintr", 0).set("sockbuf", 200000).set("mode", (i64)r.below(2)).set("max_steps", 30000000); c.set("maxpkt", 1).set("chunk", 65536).set("d_chunk", 65536); if (p.p.n("mode") == 0) c.kind = "refconn"; }
    shrink_for_seg(p);
}
static void run_p05(World &w) {
    Item &p = w.plan.p; int mode = (int)p.n("mode"); size_t kl = (size_t)p.n("keylen", 26); w.key = junk(w.plan.seed, kl); sim->mkfile("/key", w.key);
    bool rn = p.n("rnopfs"), rg = false; w.tdef.set("maxpkt", p.n("maxpkt")); if (mode == 3) sim->record_wire = true;
    const Item *bl = nullptr; for (auto &i : w.plan.items) if (i.kind == "badlen") bl = &i;
    int bad_phase = 0; App *badapp = nullptr, *badclient = nullptr; u64 good_before = 0;
    auto arm_bad = [&](App *a) { badapp = a; };
    if (mode == 0 || mode == 3) start_tunnel(w); else {
        vector<string> e = {"-e", "-F", "-s", A(w.e_addr), "-t", A(w.d_addr), "-k", "/key"}; for (auto &x : w.flags(p.s("eflags"))) e.push_back(x);
        if (mode == 1) w.spawn("e", "spiped", e);
        w.ref_server(w.d_addr, w.key, [&, rn](App *a) { a->ref->nopfs = rn; a->script(w.tdef, ""); if (bl && sim->now >= (bl->n("at")) * MS && !badapp) arm_bad(a); });
    }
    for (auto &i : w.plan.items) { Item it = i;
        if (i.kind == "conn") w.at_ms(1000 + i.n("at"), [&w, it] { w.client(it, w.e_addr); });
        else if (i.kind == "spipe") w.at_ms(1000 + i.n("at"), [&w, it, &p] { w.spipe(it, w.flags(p.s("eflags"))); });
        else if (i.kind == "refconn") w.at_ms(1000 + i.n("at"), [&w, it, rn] { App *a = w.ref_client(it, w.d_addr, w.key); a->ref->nopfs = rn; });
        else if (i.kind == "badlen") w.at_ms(i.n("at"), [&, it, rn] { Item c = it; c.kind = "conn"; c.set("fin", 9).set("d_fin", 9); if (mode == 0) { badapp = w.ref_client(c, w.d_addr, w.key); badapp->ref->nopfs = rn; badapp->hold = false; } else { c.set("n", 4).set("d_n", it.n("n")); badclient = mode == 1 ? w.client(c, w.e_addr) : w.spipe(c, w.flags(p.s("eflags"))); } }); }
    w.common_items();
    int want = n_conn_items(w);
    // drive the bad-length sender: once its session is up and its good data is sent, append one packet with a forbidden length
    i64 lim = 600 * SEC, t_bad = -1;
    sim->run(lim, [&, k = (u64)0]() mutable { if (k++ & 7) return false;
        if (badapp && bad_phase == 0 && badapp->ref->st == 2 && !badapp->closed && badapp->sent >= badapp->total && badapp->wirebuf.empty() && (mode == 0 || badapp->adopted || badapp->total == 0)) { bad_phase = 1; good_before = badapp->sent; badapp->ref->out += ref_pack(badapp->ref->keys, badapp->ref->server ? 1 : 0, string(1000, 'Z'), bl->n("len")); badapp->kick(); t_bad = sim->now; sim->fire("forbidden_length_packet"); }
        int done = 0; for (auto c : w.clients) if (c != badapp && c != badclient && c->over()) done++;
        if (done < want) return false; for (auto t : w.targets) if (t != badapp && !t->over() && !(badapp && t->peer == badapp)) return false;
        return !bl || (t_bad >= 0 && sim->now > t_bad + 5 * SEC) || (sim->now > 60 * SEC); });
    if (sim->now < lim) sim->run(sim->now + 3 * SEC);
    w.check_procs();
    for (auto &a : w.apps) if (a->ref && a.get() != badapp && a->ref->st == 3) w.v(fmt("real end sent what the protocol does not allow: reference peer %d rejected it (%s) after %llu good packets", a->id, a->ref->fail.c_str(), (unsigned long long)a->ref->rx_pkts));
    for (auto c : w.clients) if (c != badapp && c != badclient) w.check_complete(c);
    for (auto &a : w.apps) if (a->ref) { w.stat["reference_packets_checked"] += (double)a->ref->rx_pkts; if (a.get() != badapp && a->eof && !a->ref->in.empty()) w.v(fmt("real end finished its stream with %zu bytes that are not a whole packet", a->ref->in.size())); }
    if (bad_phase == 1) {
        sim->probe("forbidden_length_checked"); App *rx = badapp->peer ? badapp->peer : badclient;
        Flow *f = badapp->s->flow.get(); int me = badapp->ref->server ? 0 : 1;
        if (!f->closed_by_end[me]) w.v(fmt("a packet with forbidden length %lld did not end the connection", (long long)bl->n("len")));
        if (rx && rx->rxn > good_before) w.v(fmt("data of a packet with forbidden length %lld was delivered (%llu > %llu)", (long long)bl->n("len"), (unsigned long long)rx->rxn, (unsigned long long)good_before));
    }
    if (mode == 3) for (auto f : w.wire) { // an eavesdropper holding the key reads both directions of a no-PFS session
        if (f->recvd[0].size() < HSB || f->recvd[1].size() < HSB) continue;
        string nC = f->recvd[0].substr(0, 32), nS = f->recvd[1].substr(0, 32), dk1 = pbkdf2_1(file_key(w.key), nC + nS, 64), y0 = f->recvd[0].substr(32, 256), y1 = f->recvd[1].substr(32, 256);
        if (y0 != Y_ONE || y1 != Y_ONE) { w.v("a daemon with forward secrecy disabled did not use the value 1"); continue; }
        for (int d = 0; d < 2; d++) if (hmac256(dk1.substr(d * 32, 32), d ? y1 : y0) != f->recvd[d].substr(288, 32)) w.v(fmt("handshake MAC of direction %d is not the published one", d));
        RefKeys k; string dk2 = pbkdf2_1(file_key(w.key), nC + nS + Y_ONE, 128); k.E[0] = dk2.substr(0, 32); k.H[0] = dk2.substr(32, 32); k.E[1] = dk2.substr(64, 32); k.H[1] = dk2.substr(96, 32);
        for (int d = 0; d < 2; d++) { string pl; size_t o = HSB; const string &s = f->recvd[d]; App *tx = d ? w.target_of(f) : w.client_of(f); for (; o + PKT <= s.size(); o += PKT) { int q = ref_unpack(k, d, s.substr(o, PKT), pl); w.stat["reference_packets_checked"]++; if (q != 1) { w.v(fmt("packet %zu of direction %d is not what the protocol prescribes (%s)", (o - HSB) / PKT, d, q < 0 ? "nonzero padding" : "authentication or length")); break; } }
            if (tx && pl.size() != tx->sent && o + PKT > s.size()) w.v(fmt("direction %d carried %zu plaintext bytes for %llu sent", d, pl.size(), (unsigned long long)tx->sent)); }
    }
    (void)rg;
}

// ---------------------------------------------------------------- P06
static void gen_p06(Plan &p, Rng &r, bool th) {
    net_params(p, r, r.chance(0.4)); p.p.set("constc", 1).set("segmax", 9000).set("lat", 100).set("jit", 0); if (r.chance(0.5)) p.p.set("eflags", "-f").set("dflags", "-f");
    int mode = (int)r.below(8); bool many = r.chance(th ? 0.1 : 0.03);
    int n = many ? (int)r.range(130, 300) : (int)r.range(2, 10);
    p.p.set("n", n).set("gap", many ? r.range(1, 30) : r.range(1, 700)).set("len", many ? r.range(4, 50) : r.range(2100, 6000));
    if (mode < 3) { int k = (int)r.range(1, 3); for (int i = 0; i < k; i++) { i64 t = 1000 + r.range(0, 2500); const char *who = r.chance(0.5) ? "e" : "d"; p.add("kill").set("at", t).set("who", who).set("sig", 9); p.add("restart").set("at", t + r.range(1, 500)).set("who", who); } }
    else if (mode == 3) { p.p.set("efail", "start"); p.add("entropyfail").set("at", 0); if (r.chance(0.5)) p.add("entropyok").set("at", 3000); }
    else if (mode == 4) { p.add("entropyfail").set("at", 1000 + r.range(0, 2500)); if (r.chance(0.5)) p.add("entropyok").set("at", 4000); p.p.set("n", r.range(10, 300)).set("len", 10).set("gap", 10); }
    else if (mode == 5) { int k = (int)r.range(1, 3); for (int i = 0; i < k; i++) p.add("fault").set("proc", r.chance(0.5) ? "e" : "d").set("call", "urandom").set("nth", r.range(1, 4)).set("err", r.chance(0.5) ? 5 : 4).set("count", r.range(1, 3)); if (r.chance(0.5)) p.p.set("eof_urandom", r.range(0, 90)); }
    else { p.p.set("twin", r.chance(0.3) ? (i64)-1 : r.range(0, 47)); p.p.setf("p_short", r.chance(0.5) ? 0 : 0.5); }
    if (r.chance(th ? 0.01 : 0.002)) { p.items.clear(); for (auto k : {"efail", "eof_urandom", "twin", "p_short", "p_eintr", "p_eagain", "p_spur", "jit"}) p.p.kv.erase(k); i64 L = 1060 * 1024 * 64; p.p.set("n", 1).set("gap", 0).set("len", L).set("segmax", 65535).set("sockbuf", 200000).set("unixbuf", 131072).setf("p_yield", 0.02).set("long", 1).set("d_len", 4); if (r.chance(0.5)) p.p.set("d_len", L).set("len", 4); p.p.set("max_steps", 8000000); return; }   // one stream of more than 2^16 packets each way
    if (r.chance(0.02)) { p.items.clear(); for (auto k : {"efail", "eof_urandom", "twin"}) p.p.kv.erase(k); p.p.set("eflags", "-f").set("dflags", "-f").set("n", r.range(560, 700)).set("gap", r.range(1, 20)).set("len", r.range(4, 50)).set("fresh", 1).set("max_steps", 8000000); return; }   // long life: fresh randomness must keep coming in
    if (r.chance(0.4)) p.add("evil").set("at", 3000).set("n", r.range(1, 6)).set("gap", r.range(1, 300));   // replays one recorded client against d
}
static void p06_collect(World &w, map<string, string> &tok) {
    auto put = [&](const string &kind, const string &v) { string k = kind + v; if (tok.count(kind[0] + v)) w.v(fmt("%s used twice: %s and %s", kind.c_str(), tok[kind[0] + v].c_str(), "again")); else tok[kind[0] + v] = kind; };
    for (auto f : w.wire) for (int d = 0; d < 2; d++) {
        bool real = d == 0 ? f->init_proc != nullptr : f->acc_proc != nullptr; if (!real) continue;
        const string &s = f->sent[d]; if (s.size() >= 32) { put("nonce", s.substr(0, 32)); w.stat["nonces_compared"]++; }
        if (s.size() >= 288 && s.compare(32, 256, Y_ONE)) { put("y", s.substr(32, 256)); w.stat["dh_values_compared"]++; }
        for (size_t o = HSB; o + PKT <= s.size(); o += PKT) { put("keystream", s.substr(o + 16, 32)); w.stat["packets_compared"]++; }
    }
}
static void run_p06(World &w) {
    Item &p = w.plan.p; sim->record_wire = true; w.strict_exit = false; start_tunnel(w); w.common_items(); string rec; 
    int n = (int)p.n("n"); for (int i = 0; i < n; i++) { Item c; c.kind = "conn"; c.set("id", i + 1).set("n", p.n("len")).set("d_n", p.n("d_len", p.n("len"))).set("chunk", p.n("long") ? 65536 : 4096).set("d_chunk", p.n("long") ? 65536 : 4096); w.at_ms(1000 + i * p.n("gap"), [&w, c] { w.client(c, w.e_addr); }); }
    for (auto &i : w.plan.items) if (i.kind == "evil") for (int q = 0; q < i.n("n"); q++) w.at_ms(i.n("at") + q * i.n("gap"), [&w, &rec] { if (rec.empty()) for (auto f : w.wire) if (f->init_proc && f->sent[0].size() > HSB) { rec = f->sent[0]; break; } if (rec.empty()) return; sim->fire("replayed_client"); w.raw_on(sim->nat_connect(w.d_addr, nullptr), [&](RawPeer *r) { r->to_send = rec; }); });
    sim->run((1000 + n * p.n("gap")) * MS + 30 * SEC);
    w.check_procs();
    map<string, string> tok; p06_collect(w, tok); if (p.n("long") && w.stat["packets_compared"] > 65536) sim->probe("long_stream_compared");
    if (p.n("fresh")) for (auto who : {"e", "d"}) { Process *q = w.P(who); i64 used = 0; for (auto f : w.wire) for (int d = 0; d < 2; d++) if ((d ? f->acc_proc : f->init_proc) == q && f->sent[d].size() >= 32) used++; if (used < 550) continue; if (q->marks["urandom_last"] - q->marks["urandom_first"] < 100 * MS) w.v(fmt("%s made values for %lld sessions from one reading of the randomness source", q->name.c_str(), (long long)used)); else sim->probe("fresh_randomness_checked"); }
    if (!p.n("long")) for (auto &t : tok) w.notes.push_back(t.first);
    for (auto &i : w.plan.items) if (i.kind == "entropyfail") { i64 t0 = i.n("at") * MS, t1 = 1LL << 60; for (auto &j : w.plan.items) if (j.kind == "entropyok") t1 = j.n("at") * MS;
        // a process that never managed to read randomness must not have said anything; one that did gets at most 256 further values from it
        map<Process *, i64> used; for (auto f : w.wire) for (int d = 0; d < 2; d++) { Process *q = d ? f->acc_proc : f->init_proc; if (!q || f->sent[d].size() < 32) continue; bool inwin = f->t_start >= t0 && f->t_start < t1; if (!inwin) continue; if (!q->marks.count("urandom_bytes")) w.v(fmt("%s sent a nonce without ever having read any randomness", q->name.c_str())); else if (q->marks["urandom_first"] >= t1) w.v(fmt("%s sent a nonce before it had read any randomness", q->name.c_str())); used[q]++; if (used[q] > 256) w.v(fmt("%s went on making nonces for %lld connections after the randomness source failed", q->name.c_str(), (long long)used[q])); } }
    for (auto c : w.clients) if (c->clean()) w.stat["connections_completed"]++;
}

// ---------------------------------------------------------------- P07
static void gen_p07(Plan &p, Rng &r, bool) {
    net_params(p, r, r.chance(0.4)); if (r.chance(0.3)) topo_params(p, r); int mode = (int)r.below(4); // 0 real-real, 1 key-holding evil client -> d, 2 e -> evil server, 3 spipe -> evil server
    static const char *F[] = {"", "-f", "-g"}; p.p.set("mode", mode).set("eflags", F[r.below(3)]).set("dflags", F[r.below(3)]); if (mode == 3) p.p.kv.erase("daddr");
    if (r.chance(0.3)) p.p.set("tslow", r.range(1, 3000)); if (r.chance(0.3)) p.p.set("tn", r.range(4, 3000));
    static const char *Y[] = {"one", "one", "one", "p", "p+1", "max", "p+2", "none", "zero", "p-1", "2", "p+one_low", "ff"};
    int n = (int)r.range(1, 4); for (int i = 0; i < n; i++) { Item &c = simple_conn(p, r, i + 1, r.range(0, 2000), r.range(4, 4000), r.range(4, 4000)); c.set("y", mode == 0 ? "real" : Y[r.below(13)]); if ((mode == 1 || mode == 2) && r.chance(0.2)) { c.set("y", fmt("like%lld", (long long)r.below(1000))); c.set("d_n", 0); p.p.kv.erase("tn"); } if (mode == 1) c.kind = "refconn"; if (mode == 3) to_spipe(c); }
}
static string add1(string y, unsigned k) { for (int i = 255; i >= 0 && k; i--) { unsigned v = (u8)y[i] + k; y[i] = (char)v; k = v >> 8; } return y; }
// values that resemble 1 without being it: last byte 1, and the others zero but for one or two of them
static string like_one(unsigned v) { Rng r(v, 77); string y = Y_ONE; unsigned i = 1 + r.below(254), j = 1 + r.below(254); u8 x = (u8)r.range(1, 255); switch (v % 4) { case 0: y[i] = (char)x; break; case 1: y[i] = (char)0x80; y[j == i ? (i == 1 ? 2 : i - 1) : j] = (char)0x80; break; case 2: y[i] = (char)x; y[j == i ? (i == 1 ? 2 : i - 1) : j] = (char)(256 - x); break; default: y[254 - r.below(3)] = (char)x; y[255] = (char)(r.below(2)); } return y; }
static string ybytes(const string &k) { if (!k.compare(0, 4, "like")) return like_one((unsigned)atoi(k.c_str() + 4)); const string &g = dh_group14(); if (k == "one") return Y_ONE; if (k == "p") return g; if (k == "p+1") return add1(g, 1); if (k == "p+2") return add1(g, 2); if (k == "max" || k == "ff") return string(256, (char)0xff); if (k == "zero") return string(256, 0); if (k == "2") return string(255, 0) + string(1, 2); if (k == "p-1") { string y = g; y[255] = (char)((u8)y[255] - 1); return y; } if (k == "p+one_low") { string y = g; y[200] = (char)0xff; for (int i = 201; i < 256; i++) y[i] = (char)0xff; return y; } return ""; }
static void run_p07(World &w) {
    Item &p = w.plan.p; int mode = (int)p.n("mode"); sim->record_wire = true; string ef = p.s("eflags"), df = p.s("dflags");
    map<App *, string> ykind; vector<string> order; size_t nexty = 0; map<App *, App *> srv;
    if (p.n("tslow")) sim->blackhole[mode <= 1 ? w.t_addr : w.d_addr] = fmt("slow:%lld", (long long)p.n("tslow"));
    vector<string> pend;
    if (mode <= 1) { if (mode == 1) p.set("need_e", 0); start_tunnel(w); }
    else { vector<string> e = {"-e", "-F", "-s", A(w.e_addr), "-t", A(w.d_addr), "-k", "/key"}; for (auto &x : w.flags(ef)) e.push_back(x); if (mode == 2) w.spawn("e", "spiped", e);
        w.ref_server(w.d_addr, w.key, [&](App *a) { // which client this is for is known by order of connecting
            Flow *f = a->s->flow.get(); App *c = w.client_of(f); string k = c ? c->sc.s("y") : "none"; ykind[a] = k; if (k != "none") a->ref->y_force = ybytes(k); if (c) srv[c] = a; bool bad = k == "p" || k == "p+1" || k == "max" || k == "ff" || k == "p+2" || k == "p+one_low"; if (k == "p+1") a->ref->y_force = ybytes(k); if (bad) a->evil = true; }); }
    for (auto &i : w.plan.items) { Item it = i; if (i.kind == "conn") w.at_ms(1000 + i.n("at"), [&w, it] { w.client(it, w.e_addr); });
        else if (i.kind == "spipe") w.at_ms(1000 + i.n("at"), [&w, it, ef] { w.spipe(it, w.flags(ef)); });
        else if (i.kind == "refconn") w.at_ms(1000 + i.n("at"), [&, it] { App *a = w.ref_client(it, w.d_addr, w.key); string k = it.s("y"); ykind[a] = k; if (k != "none") a->ref->y_force = ybytes(k); if (k[0] == 'p' && k != "p-1") a->evil = true; if (k == "max" || k == "ff") a->evil = true; }); }
    sim->run(30 * SEC);
    w.check_procs();
    if (mode == 0) {
        bool ok = !((ef == "-f" && df == "-g") || (df == "-f" && ef == "-g"));
        for (auto c : w.clients) { if (ok) { w.check_complete(c); sim->probe("pair_served"); } else { sim->probe("pair_refused"); if (c->rxn) w.v("a connection through a forward-secrecy-requiring end and a disabling end delivered data to the client"); if (!c->over()) w.v("a connection between a forward-secrecy-requiring end and a disabling end was not dropped"); } }
        if (!ok) for (auto t : w.targets) if (t->rxn) w.v("a connection through a forward-secrecy-requiring end and a disabling end delivered data to the target");
        for (auto f : w.wire) for (int d = 0; d < 2; d++) { const string &s = f->sent[d], fl = d ? df : ef; if (s.size() < 288) continue; bool one = s.compare(32, 256, Y_ONE) == 0; if (fl == "-f" && !one) w.v("an end with forward secrecy disabled did not use the value 1"); if (fl != "-f" && one) w.v("an end without the disable option used the value 1"); }
        return;
    }
    string my = mode == 1 ? df : ef; const char *who = mode == 1 ? "decrypting daemon" : mode == 2 ? "encrypting daemon" : "command-line client"; int me = mode == 1 ? 1 : 0;
    for (auto &y : ykind) {
        App *a = y.first; string k = y.second; Flow *f = a->s->flow.get(); if (!f->established) continue;
        App *mate = mode == 1 ? w.target_of(f) : w.client_of(f); bool ge = (k[0] == 'p' && k != "p-1") || k == "max" || k == "ff", one = k == "one"; 
        const string &s = f->sent[me]; if (s.size() >= 288) { bool o1 = s.compare(32, 256, Y_ONE) == 0; if (my == "-f" && !o1) w.v(fmt("%s with forward secrecy disabled did not use the value 1", who)); }
        if (ge || (one && my == "-g")) {
            sim->probe(ge ? "out_of_range_value_checked" : "weak_value_vs_require_checked");
            if (mate && mate->rxn) w.v(fmt("%s %s passed %llu bytes from a peer whose value was %s", who, my.c_str(), (unsigned long long)mate->rxn, k.c_str()));
            if (s.size() > HSB) w.v(fmt("%s %s sent data to a peer whose value was %s", who, my.c_str(), k.c_str()));
            if (mode == 1 && s.size() > 32) w.v(fmt("%s %s answered a handshake value %s", who, my.c_str(), k.c_str()));
            if (!f->closed_by_end[me]) w.v(fmt("%s %s did not drop a peer whose value was %s", who, my.c_str(), k.c_str()));
        } else if (!k.compare(0, 4, "like")) {
            // such a value is in range and not 1: the handshake goes on (this peer cannot know the keys, so nothing further can be expected)
            if (f->recvd[1 - me].size() < HSB || p.n("tslow") > 2500) continue;
            sim->probe("value_resembling_one_checked");
            if (mode == 1 ? s.size() < HSB : (mate && mate->sent && s.size() <= HSB)) w.v(fmt("%s %s refused a peer whose value was in range and not 1 (%s)", who, my.c_str(), k.c_str()));
        } else if ((one || k == "none") && p.n("tslow") < 4500) {
            App *c = mode == 1 ? a : mate; if (!c) { w.v(fmt("%s: client of a legitimate peer not found", who)); continue; } sim->probe(one ? "weak_value_served" : "strong_value_served"); w.check_complete(c);
        }
    }
}
extern const PropDef props2[] = {{"P03", gen_p03, run_p03}, {"P04", gen_p04, run_p04}, {"P05", gen_p05, run_p05}, {"P06", gen_p06, run_p06}, {"P07", gen_p07, run_p07}, {nullptr, nullptr, nullptr}};
