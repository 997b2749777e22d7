// P26: a daemon that ended, however it ended, can be started again at once and serves
#include "props.h"
#include <algorithm>
static const char *KEYS[] = {"shared secret key material", "the next key, in force after a rotation", "a third key"};
static void gen_p26(Plan &p, Rng &r, bool th) {
    net_params(p, r, r.chance(0.5)); if (p.p.n("segmax") < 50) p.p.set("segmax", 536);
    if (r.chance(0.2)) p.p.set("daddr", "[fd00::2]:8002"); else if (r.chance(0.15)) p.p.set("daddr", "10.0.0.2:443"); if (r.chance(0.25)) p.p.set("taddr", "/run/t.sock"); if (r.chance(0.15)) p.p.set("eaddr", "10.0.0.1:22");
    string f = r.chance(0.7) ? "-f" : ""; p.p.set("eflags", f).set("dflags", f); p.p.set("bg_e", (i64)r.chance(0.4)).set("bg_d", (i64)r.chance(0.4)); if (r.chance(0.3)) p.p.set("u", 1); if (r.chance(0.15)) p.p.set("lim", r.range(1, 3)); if (r.chance(0.2)) p.p.set("to", r.range(1, 4));
    int n = (int)r.range(1, th ? 4 : 3); i64 t = 1500; static const char *H[] = {"kill", "kill", "step", "step", "term", "term", "pause", "int"};
    for (int i = 0; i < n; i++) { i64 w = r.range(0, 2500); int k = (int)r.range(0, 4); for (int j = 0; j < k; j++) { Item &c = add_conn(p, r, 1 + i * 10 + j, std::max<i64>(1500, t - 300) + r.range(0, w + 300), 12000); c.set("phase", i); if (r.chance(0.3)) c.set(r.chance(0.5) ? "findelay" : "d_findelay", r.range(1, 9000)); if (r.chance(0.15)) c.set("stop", r.range(0, 3000)).set("resume", r.range(5000, 20000)); }
        int np = (int)r.below(3); for (int j = 0; j < np && r.chance(0.4); j++) p.add("peer").set("at", t + r.range(0, w)).set("who", (i64)r.below(2)).set("len", r.chance(0.5) ? 0 : r.range(1, 1500)).set("close", r.chance(0.3) ? r.range(1, 4000) : 20000);
        t += w; string h = H[r.below(8)]; Item &e = p.add("end").set("at", t).set("who", r.chance(0.5) ? "e" : "d").set("how", h).set("delay", r.chance(0.5) ? 0 : r.chance(0.5) ? r.range(1, 300) : r.range(300, 5000));
        if (h == "step") e.set("step", r.range(1, 400)); if (h == "term" || h == "pause") e.set("grace", r.chance(0.3) ? 0 : r.range(100, 4000)); if (r.chance(0.25)) e.set("ks", r.range(1, 120)).set("redelay", r.chance(0.5) ? 0 : r.range(1, 500)); if (r.chance(0.2)) e.set("newkey", r.range(1, 2)); if (r.chance(0.15)) e.set("both", 1);
        t += e.n("delay") + e.n("grace") + (r.chance(0.3) ? 0 : 2500); }
}
struct D26 { Process *l = nullptr, *p = nullptr; string key; i64 t_up = 0; int starts = 0; bool want = false, starting = false; i64 ks = 0, redelay = 0; int final_signal = 0; };
static void run_p26(World &w) {
    Item &p = w.plan.p; w.allow_raw = true; w.strict_exit = false; map<string, D26> D; string key = KEYS[0]; w.key = key;
    bool u = p.n("u"); i64 to = p.n("to", 5); w.start_target();
    auto addr = [&](const string &n) { return n == "e" ? w.e_addr : w.d_addr; }; auto pidf = [&](const string &n) { return "/run/" + n + ".pid"; };
    auto args = [&](const string &n) { vector<string> a = {n == "e" ? "-e" : "-d", "-s", A(addr(n)), "-t", A(n == "e" ? w.d_addr : w.t_addr), "-k", "/key"}; for (auto &x : w.flags(p.s((n + "flags").c_str()))) a.push_back(x); if (p.n(("bg_" + n).c_str())) { a.push_back("-p"); a.push_back(pidf(n)); } else a.push_back("-F"); if (u) { a.push_back("-u"); a.push_back("svc:grp"); } if (p.n("lim")) { a.push_back("-n"); a.push_back(std::to_string(p.n("lim"))); } if (p.n("to")) { a.push_back("-o"); a.push_back(std::to_string(to)); } return a; };
    auto daemon_of = [&](Process *l) -> Process * { for (auto q : sim->procs) if (q->parent == l) return q; return nullptr; };
    auto serving = [&](const string &n) -> bool { D26 &d = D[n]; return d.p && d.p->alive; };
    auto tail = [](Process *q) { string s = q->err_out; return s.substr(s.size() > 200 ? s.size() - 200 : 0); };
    set<Process *> was; bool over = false; int nstart = 0;
    // started: within a second it listens, or the launching command has said why not
    auto check_up = [&](const string &n, int gen) { D26 &d = D[n]; if (d.starts != gen || !d.starting) return; d.starting = false; bool bg = p.n(("bg_" + n).c_str()); string again = d.starts > 1 ? " again" : "";
        if (bg) { d.p = daemon_of(d.l); if (d.l->alive) { w.v(fmt("the command starting %s%s has not returned within a second", n.c_str(), again.c_str())); return; } if (d.l->status || d.l->termsig) { w.v(fmt("%s could not be started%s: the command failed (%s)", n.c_str(), again.c_str(), tail(d.l).c_str())); return; } }
        if (!d.p || !d.p->alive) { w.v(fmt("%s did not stay up when started%s: %s", n.c_str(), again.c_str(), d.p ? tail(d.p).c_str() : "no daemon")); return; }
        auto li = sim->listeners.find(addr(n)); bool mine = false; if (li != sim->listeners.end()) for (auto &e : d.p->fds) if (e.f.get() == li->second.get()) mine = true;
        if (!mine) w.v(fmt("%s, started%s, does not listen after a second", n.c_str(), again.c_str()));
        if (bg && (!sim->fs.count(pidf(n)) || sim->fs[pidf(n)]->data != std::to_string(d.p->pid))) w.v(fmt("the pid file of %s holds '%s' instead of %d after a restart", n.c_str(), sim->fs.count(pidf(n)) ? sim->fs[pidf(n)]->data.c_str() : "", d.p->pid));
        if (u && (d.p->euid != 123 || d.p->uid != 123)) w.v(n + " serves with the wrong credentials after a restart"); d.t_up = sim->now; sim->probe(d.starts > 1 ? "up_again" : "up"); };
    function<void(const string &)> start = [&](const string &n) { D26 &d = D[n]; if (over) return; sim->mkfile("/key", key); d.key = key; d.starts++; nstart++; if (d.starts > 1) sim->fire("process_restart"); d.starting = true; d.final_signal = 0; d.p = nullptr;
        d.l = w.spawn(n, "spiped", args(n)); if (!p.n(("bg_" + n).c_str())) d.p = d.l; was.insert(d.l); int g = d.starts; string nn = n; sim->after(SEC, [&, nn, g] { check_up(nn, g); }); };
    // steps of a process at which it is killed
    struct Kill { string n; Process *p; u64 step; }; vector<Kill> kills; auto forget = [&](const string &n) { for (size_t i = kills.size(); i-- > 0;) if (kills[i].n == n) kills.erase(kills.begin() + i); };
    auto oc = sim->on_call; sim->on_call = [&, oc](Process *q, const string &c) { oc(q, c); if (q->in_exit || kills.empty()) return; for (size_t i = 0; i < kills.size(); i++) { if (kills[i].p != q) continue; if (q->steps >= kills[i].step) { kills.erase(kills.begin() + i); sim->fire("process_killed"); sim->fire("killed_at_a_call"); proc_exit_now(0, SIGKILL, "killed"); } } };
    auto name_of = [&](Process *q) -> string { for (auto &x : D) if (x.second.p == q || (x.second.l == q && !x.second.p)) return x.first; return ""; };
    sim->on_proc_exit = [&](Process *q) { for (auto &x : D) { D26 &d = x.second; if (q == d.l && q != d.p && q->exit_how != "killed") { Process *c = daemon_of(q); if (c) { d.p = c; was.insert(c); } continue; }
            if (q != d.p && q != d.l && (!q->parent || q->parent != d.l)) continue; if (!d.want) continue; if (q == d.l && q != d.p) { Process *c = daemon_of(q); if (c && c->alive) { was.insert(c); Process *cc = c; sim->after(0, [cc] { if (cc->alive) sim->kill_proc(cc, SIGKILL, "killed"); }); } }
            d.want = false; d.starting = false; string n = x.first; forget(n); i64 dl = d.redelay; i64 ks = d.ks; d.ks = 0; d.redelay = 0; sim->after(dl * MS + 1, [&, n, ks] { start(n); if (ks) { D26 &e = D[n]; e.want = true; kills.push_back({n, e.l, (u64)ks}); string nn = n; int g = e.starts; sim->after(300 * MS, [&, nn, g] { D26 &e = D[nn]; forget(nn); if (e.starts == g) e.want = false; }); } }); } };
    auto end_it = [&](const string &n, const Item &it) { D26 &d = D[n]; if (over || d.want) return; Process *q = d.p && d.p->alive ? d.p : d.l && d.l->alive ? d.l : nullptr; if (!q) return; string h = it.s("how"); d.starting = false; d.want = true; d.redelay = it.n("delay"); d.ks = it.n("ks"); if (it.n("newkey")) { key = KEYS[it.n("newkey")]; sim->fire("key_rotated"); }
        auto hard = [&, n, q] { if (q->alive && !over) { sim->fire("process_killed"); q->paused_until = std::min(q->paused_until, sim->now); sim->kill_proc(q, SIGKILL, "killed"); } };
        if (h == "kill") hard(); else if (h == "step") { kills.push_back({n, q, q->steps + (u64)it.n("step")}); sim->after(2 * SEC, hard); }
        else if (h == "int") { sim->fire("sigint"); sim->signal_proc(q, SIGINT); sim->after(500 * MS, hard); }
        else { d.final_signal = SIGTERM; sim->fire("sigterm"); if (h == "pause") { q->paused_until = sim->now + it.n("grace") * MS; sim->fire("process_paused"); } sim->signal_proc(q, SIGTERM); sim->after(it.n("grace") * MS, hard); } };
    start("d"); start("e");
    i64 last = 1500;
    for (auto &i : w.plan.items) { Item it = i; if (i.kind == "conn") { sim->at(i.n("at") * MS, [&, it] { w.client(it, w.e_addr); }); }
        else if (i.kind == "peer") sim->at(i.n("at") * MS, [&, it] { w.raw_on(sim->nat_connect(addr(it.n("who") ? "e" : "d"), nullptr), [&](RawPeer *q) { if (it.n("len")) q->to_send = string(1, (char)0xC2) + string((size_t)it.n("len"), 'g'); q->close_at = sim->now + it.n("close") * MS; q->kick_at(q->close_at); }); });
        else if (i.kind == "end") { last = std::max(last, it.n("at") + 2500 + it.n("grace") + it.n("delay")); sim->at(i.n("at") * MS, [&, it] { end_it(it.s("who"), it); if (it.n("both")) end_it(it.s("who") == "e" ? "d" : "e", it); }); } }
    sim->run(last * MS + SEC);
    // every restart is over once both daemons are up and nothing is pending
    for (int i = 0; i < 40 && sim->viol.empty(); i++) { bool ok = kills.empty(); for (auto &x : D) if (x.second.want || x.second.starting) ok = false; if (ok) break; sim->run(sim->now + SEC / 2); }
    auto procs = [&] { for (auto q : sim->procs) { for (auto &m : q->violations) w.v(q->name + ": " + m); if (q->hung) w.v(q->name + " hung"); if (q->exited && q->exit_how != "killed" && q->termsig && q->termsig != SIGINT && q->termsig != SIGTERM) w.v(fmt("%s died: %s", q->name.c_str(), q->exit_how.c_str())); if (q->exited && q->exit_how != "killed" && !q->termsig && q->status) w.v(fmt("%s ended with status %d: %s", q->name.c_str(), q->status, tail(q).c_str())); } if (sim->fatal) w.v("simulation made no progress within its step budget: " + sim->fatal_msg); };
    procs(); if (!sim->viol.empty()) return;
    for (const char *n : {"e", "d"}) if (!serving(n)) { w.v(fmt("%s is not running although it was started again", n)); return; }
    // connections that went through a daemon that ended are over for everybody; the others are let run to their end
    sim->run(sim->now + 60 * SEC, [&, k = (u64)0]() mutable { if (k++ & 31) return false; if (!w.all_over()) return false; return true; }); i64 peers = 0; for (auto &i : w.plan.items) if (i.kind == "peer") peers = std::max(peers, i.n("at") + i.n("close")); sim->run(std::max(sim->now, peers * MS) + 6 * SEC);
    for (auto c : w.clients) if (!c->over()) w.v(fmt("connection %d is still open for its client long after the daemon serving it was started again (received=%llu eof=%d sent=%llu/%llu)", c->id, (unsigned long long)c->rxn, c->eof, (unsigned long long)c->sent, (unsigned long long)c->total));
    for (auto t : w.targets) if (!t->over()) w.v(fmt("a connection to the target (client %d) is still open long after the daemon was started again", t->peer ? t->peer->id : -1));
    if (!sim->viol.empty()) return;
    // two daemons started with different keys (the file was replaced in between) do not carry anything
    int id = 900; auto one = [&] { Item c; c.kind = "conn"; c.set("id", id++).set("n", 3000).set("d_n", 3000); return w.client(c, w.e_addr); };
    if (D["e"].key != D["d"].key) { size_t nt = w.targets.size(); App *c = one(); sim->run(sim->now + (to + 2) * SEC); if (c->rxn) w.v("data was carried between daemons started with different keys"); for (size_t i = nt; i < w.targets.size(); i++) if (w.targets[i]->rxn) w.v("data was carried between daemons started with different keys"); if (!c->over()) w.v("a connection between daemons started with different keys is not ended"); sim->probe("rotation_half_done");
        string n = D["e"].key != key ? "e" : "d"; Item it; it.kind = "end"; it.set("how", "kill"); end_it(n, it); sim->run(sim->now + 2 * SEC); if (D["e"].key != key || D["d"].key != key) { n = n == "e" ? "d" : "e"; end_it(n, it); sim->run(sim->now + 2 * SEC); } if (sim->viol.empty()) sim->probe("rotation_complete"); }
    if (!sim->viol.empty()) return; for (const char *n : {"e", "d"}) if (!serving(n)) { w.v(fmt("%s is not running although it was started again", n)); return; }
    vector<App *> fin; int nf = p.n("lim") ? (int)p.n("lim") : 3; for (int i = 0; i < nf; i++) fin.push_back(one());
    sim->run(sim->now + 15 * SEC); for (auto c : fin) w.check_complete(c); sim->probe("served_after_restart"); procs(); if (!sim->viol.empty()) return;
    sim->run(sim->now + 10 * SEC); for (const char *n : {"e", "d"}) { int k = held_socks(w, D[n].p); if (k) w.v(fmt("%s holds %d socket(s) of connections that are long over", n, k)); }
    over = true; for (const char *n : {"e", "d"}) sim->signal_proc(D[n].p, SIGTERM); sim->run(sim->now + 3 * SEC); for (const char *n : {"e", "d"}) { Process *q = D[n].p; if (q->alive) w.v(fmt("%s did not exit after SIGTERM", n)); else { if (q->status || q->termsig) w.v(fmt("%s: exit status %d (signal %d) after SIGTERM", n, q->status, q->termsig)); } }
    procs();
}
extern const PropDef props9[] = {{"P26", gen_p26, run_p26}, {nullptr, nullptr, nullptr}};
