// P12 P13 P14: name re-resolution, address failover, the command-line client
#include "props.h"
#include <algorithm>

static string jf(std::initializer_list<string> l) { string o; for (auto &x : l) if (!x.empty()) o += (o.empty() ? "" : "_") + x; return o; }
static string ip_of(const string &addr) { size_t i = addr.rfind(':'); string s = addr.substr(0, i); if (s[0] == '[') s = s.substr(1, s.size() - 2); return s; }
static bool v6(const string &a) { return a.find(':') != string::npos && a.find('.') == string::npos; }

// ---------------------------------------------------------------- P12
static void gen_p12(Plan &p, Rng &r, bool th) {
    net_params(p, r, r.chance(0.5)); p.p.set("xf", r.chance(0.3) ? "-j" : ""); if (p.p.n("segmax") < 50) p.p.set("segmax", 100);
    string who = r.chance(0.6) ? "d" : "e"; p.p.set("who", who); if (who == "d" && r.chance(0.3)) p.p.set("eaddr", "/run/e.sock");
    static const char *R[] = {"0.5", "1", "2.5", "5", "20", "60", "600"}; string rr = R[r.below(7)]; static const char *BIG[] = {"inf", "infinity", "1e300", "1e19", "9.3e18", "1e17", "1e12", "4294967296"}; bool huge = r.chance(0.05); if (huge) rr = "600"; bool one = !huge && r.chance(0.12), dflt = !huge && !one && r.chance(0.15); if (dflt) rr = "60"; double rt = atof(rr.c_str());
    p.p.setf("r", one ? 0 : rt); p.p.set("rflags", one ? "-R" : dflt ? "" : "-r_" + rr); p.p.set("f", r.chance(0.8) ? "-f" : ""); if (huge) { p.p.set("rflags", string("-r_") + BIG[r.below(8)]); p.p.setf("r", 2e8); }
    if (r.chance(0.3)) { p.p.set("D", 1); int k = (int)r.below(3); p.p.set("sname", (i64)(k == 0)).set("bname", (i64)(k == 1)); }
    i64 up = r.chance(0.3) ? r.range(1, 40000) : 0; p.p.set("dnsup", up); if (up) p.p.set("dnserr0", -(i64)r.range(2, 4));
    double span = std::max(4.0, rt * (double)r.range(2, th ? 14 : 7)); i64 S = (i64)(span * 1000); p.p.set("span", S);
    int nd = (int)r.range(1, th ? 10 : 6); static const char *IPS[] = {"10.0.0.20", "10.0.0.21", "10.0.0.22", "fd00::20", "fd00::21"};
    Rng q(r.next(), 41); int dead = q.chance(0.3) ? (int)q.below(3) : -1; if (dead >= 0) p.p.set("dead", IPS[dead]);      // one of the addresses refuses: the later ones of the list count as well
   
    for (int i = 0; i < nd; i++) { i64 at = 1500 + up + r.range(0, S); Item &d = p.add("dns").set("at", at);
        int k = (int)r.below(10); if (k < 5) { string a; int m = (int)r.range(1, 3); for (int j = 0; j < m; j++) a += (j ? "," : "") + string(IPS[r.below(p.p.n("bname") ? 3 : 5)]); if (dead >= 0) { int live = (int)q.below(3); if (live == dead) live = (live + 1) % 3; if (q.chance(0.7)) a = string(IPS[dead]) + (q.chance(0.4) ? "," + string(IPS[dead]) : "") + "," + IPS[live]; else a += string(",") + IPS[live]; } d.set("addrs", a); } else if (k < 7) { d.set("err", -(i64)r.range(2, 4)); } else { d.set("delay", r.chance(0.25) ? -1 : r.chance(0.5) ? r.range(1, 3000) : r.range(3000, 40000)); }
        if (k >= 5 && r.chance(0.6)) { Item &c = p.add("dns").set("at", at + r.range(1, S / 2)); if (k < 7) c.set("err", 0); else c.set("delay", r.range(0, 50)); } }
    int nc = (int)r.range(2, th ? 12 : 8); for (int i = 0; i < nc; i++) { Item &c = simple_conn(p, r, i + 1, up + r.range(0, S), r.range(4, 4000), r.range(4, 4000)); if (r.chance(0.4)) c.set(r.chance(0.5) ? "findelay" : "d_findelay", r.range(1, S)); if (r.chance(0.3)) c.set("chunk", 500).set("gap", r.range(1, (i64)(rt * 200000))); }
    if (r.chance(0.2)) p.add("pause").set("at", 1000 + r.range(0, S)).set("who", who).set("for", r.range(1, 1500));
    if (r.chance(0.2)) p.add("clockjump").set("at", 1000 + r.range(0, S)).set("by", r.chance(0.5) ? 100000 : -100000);
}
static void run_p12(World &w) {
    Item &p = w.plan.p; string who = p.s("who", "d"); double rt = p.f("r", 0); const i64 R = (i64)(rt * SEC), up = p.n("dnsup") * MS; bool D = p.n("D"); string name = who == "d" ? "target.example" : "server.example";
    i64 pause = 0; for (auto &i : w.plan.items) if (i.kind == "pause") pause += i.n("for") * MS;
    w.dns_tab[name] = {"10.0.0.20"}; if (p.has("dead")) { sim->blackhole[p.s("dead")] = "rst"; if (p.s("dead") == "10.0.0.20") w.dns_tab[name] = {"10.0.0.20", "10.0.0.21"}; } w.dns_tab["self.example"] = {who == "d" ? "10.0.0.2" : "10.0.0.1"};
    string other = p.n("sname") || p.n("bname") ? "self.example" : "";
    if (up) { i64 e = p.n("dnserr0", -3); string n0 = other.empty() ? name : other; w.dns_err[n0] = (int)e; sim->at(up, [&w, n0] { w.dns_err.erase(n0); }); }
    struct Rec { i64 t0, t1; vector<string> addrs; int err; }; vector<Rec> log; auto od = sim->dns;
    sim->dns = [&, od](const string &h, Process *q) { DnsAns a = od(h, q); if (h == name) log.push_back({sim->now, a.delay < 0 ? -1 : sim->now + a.delay, a.err ? vector<string>() : a.addrs, a.err}); return a; };
    struct Att { i64 t; string ip; u64 acc; }; vector<Att> att; auto of = sim->on_flow;
    sim->on_flow = [&, of](Flow *f) { of(f); if (f->init_proc && f->init_proc == w.P(who) && f->src != "socketpair") { auto i = w.parent.find(f->id); att.push_back({sim->now, ip_of(f->dst), i == w.parent.end() ? 0 : i->second}); } };
    // the target (or the decrypting end) is reachable under every address
    string f = p.s("f"); auto fl = [&](vector<string> &v, const string &s) { for (auto &x : w.flags(s)) v.push_back(x); };
    vector<string> d, e;
    if (who == "d") { w.t_addr = "0.0.0.0:8003"; w.start_target(); d = {"-d", "-F", "-s", p.n("sname") ? "self.example:8002" : A(w.d_addr), "-t", name + ":8003", "-k", "/key"}; e = {"-e", "-F", "-s", A(w.e_addr), "-t", A(w.d_addr), "-k", "/key"}; }
    else { w.start_target(); w.d_addr = "0.0.0.0:8002"; d = {"-d", "-F", "-s", A(w.d_addr), "-t", A(w.t_addr), "-k", "/key"}; e = {"-e", "-F", "-s", p.n("sname") ? "self.example:8001" : A(w.e_addr), "-t", name + ":8002", "-k", "/key"}; }
    auto &x = who == "d" ? d : e; fl(x, p.s("rflags")); if (D) x.push_back("-D"); if (p.n("bname")) { x.push_back("-b"); x.push_back("self.example"); } fl(d, f); fl(e, f);
    w.spawn("d", "spiped", d); w.spawn("e", "spiped", e);
    w.common_items();
    for (auto &i : w.plan.items) if (i.kind == "dns") { Item it = i; w.at_ms(i.n("at"), [&w, it, name] { if (it.has("addrs")) { w.dns_tab[name] = splitw(it.s("addrs"), ','); sim->fire("dns_changed"); } if (it.has("err")) { if (it.n("err")) w.dns_err[name] = (int)it.n("err"); else w.dns_err.erase(name); } if (it.has("delay")) w.dns_delay[name] = it.n("delay") < 0 ? -1 : it.n("delay") * MS; }); }
    if (up && !D) { // resolution fails at start-up: it must fail, and fail at once
        w.may_exit.insert(who); sim->run(60 * SEC); Process *q = w.P(who);
        if (q->alive) w.v(fmt("%s is running although the name could not be resolved at start-up", who.c_str())); else if (q->status == 0 || q->termsig) w.v(fmt("%s did not exit with a failure status when the name could not be resolved", who.c_str())); else if (q->t_exit > 2 * SEC) w.v("start-up failure reported only late"); else if (q->err_out.empty()) w.v("start-up failure without a message"); else sim->probe("startup_failure_checked");
        w.check_procs(); return;
    }
    for (auto &i : w.plan.items) if (i.kind == "conn") { Item it = i; w.at_ms(1000 + (up ? 3000 : 0) + i.n("at"), [&w, it] { w.client(it, w.e_addr); }); }
    i64 tend = (p.n("span") + 5000) * MS + up; run_until_done(w, 4 * tend / SEC + 60); if (sim->now < tend) sim->run(tend);
    i64 t_stop = sim->now; w.check_procs();
    for (auto c : w.clients) w.check_complete(c);
    if (w.clients.empty()) return;
    // cadence
    if (D && up) sim->probe("waited_for_dns");
    size_t first = 0; while (first < log.size() && log[first].err) first++;     // start-up lookups
    for (size_t i = 1; i <= first && i < log.size(); i++) { i64 g = log[i].t0 - log[i - 1].t1; if (g < 900 * MS || g > 2000 * MS + pause) w.v(fmt("start-up lookups %.3f s apart instead of about one second", g / 1e9)); }
    for (size_t i = first; i < log.size(); i++) {
        if (log[i].t1 < 0) { if (i + 1 < log.size()) w.v("a new lookup was started while one was still unanswered"); sim->probe("hanging_lookup"); break; }
        if (R == 0) { if (i > first) { w.v("the name was looked up again although re-resolution is disabled"); break; } continue; }
        i64 g = i + 1 < log.size() ? log[i + 1].t0 - log[i].t1 : -1, left = t_stop - log[i].t1;
        if (g >= 0 && g < R - 2 * MS && i > first) w.v(fmt("the next lookup came %.3f s after the previous one; the interval is %.3f s", g / 1e9, R / 1e9));
        i64 late = i == first && p.n("bname") ? up + 1200 * MS : 0;       // serving starts only once the bind name is known as well
        if ((g < 0 && left > R + 500 * MS + pause + late) || g > R + 500 * MS + pause + late) w.v(fmt("no lookup for %.3f s; the interval is %.3f s", (g < 0 ? left : g) / 1e9, R / 1e9)); else sim->probe("lookup_on_time");
    }
    // destinations
    const i64 DELTA = 200 * MS + pause; map<u64, i64> seen;
    for (auto &a : att) {
        i64 t = w.t_accept.count(a.acc) ? w.t_accept[a.acc] : a.t; bool ok = false; const Rec *last = nullptr; for (auto &l : log) if (l.t1 >= 0 && !l.err && l.t1 + DELTA <= t) last = &l;
        auto has = [&](const Rec &l) { for (auto &s : l.addrs) if (s == a.ip) return true; return false; };
        if (last && has(*last)) ok = true; for (auto &l : log) if (l.t1 >= 0 && !l.err && l.t1 <= a.t && l.t1 + DELTA > t && has(l)) ok = true;
        if (!ok) w.v(fmt("a connection accepted at %.3f s went to %s, which is not an address of the latest completed lookup", t / 1e9, a.ip.c_str()));
        else { sim->probe("destination_checked"); if (last && last != &log[first]) sim->probe("destination_after_change"); }
    }
    set<u64> accs; for (auto &a : att) accs.insert(a.acc); (void)accs;
}

// ---------------------------------------------------------------- P13
static void gen_p13(Plan &p, Rng &r, bool th) {
    net_params(p, r, r.chance(0.5)); if (p.p.n("segmax") < 50) p.p.set("segmax", 100);
    static const char *W[] = {"e", "d", "d", "s"}; string who = W[r.below(4)]; p.p.set("who", who); p.p.set("f", r.chance(0.8) ? "-f" : ""); p.p.set("o", r.range(2, 8));
    int n = (int)r.range(1, th ? 8 : 5); if (r.chance(0.07)) n = (int)r.range(6, 20); string l; static const char *B[] = {"refused", "refused", "unreach", "netunreach", "rst", "late_rst", "late_unreach", "good", "good", "drop", "slow", "imm", "err"};
    for (int i = 0; i < n; i++) { bool six = r.chance(0.25); string ip = fmt(six ? "fd00::%d" : "10.0.0.%d", 20 + i); string b = B[r.below(13)]; if (b == "imm" || b == "err") { static const int E[] = {ETIMEDOUT, ENETUNREACH, EHOSTUNREACH, EACCES, EPERM, EADDRNOTAVAIL, ECONNABORTED, ENETDOWN, EHOSTDOWN, ENOBUFS, ECONNREFUSED, ECONNRESET, EADDRINUSE, EAFNOSUPPORT, EPROTOTYPE, EIO}; int e = E[r.below(16)]; b = b == "imm" ? fmt("imm:%d", e) : fmt("err:%d:%d", e, (int)r.range(0, r.chance(0.8) ? 200 : 900)); } if (i + 1 == n && r.chance(0.7)) b = "good"; if (b == "slow") b = fmt("slow:%d", (int)r.range(1, 1500)); l += (i ? "," : "") + ip + "=" + b; }
    p.p.set("list", l);
    if (r.chance(0.5)) { bool six = r.chance(0.2); static const char *B4[] = {"[10.9.9.9]:0", "[10.9.9.9]:0", "[10.9.9.9]:4321", "10.9.9.9", "[10.9.9.9]", "bound.example", "bound.example:0", "10.9.9.9:4321"}; p.p.set("bind", six ? r.chance(0.5) ? "[fd00::99]:0" : "[fd00::99]" : B4[r.below(8)]); if (r.chance(0.15)) p.p.set("binderr", r.chance(0.5) ? EADDRNOTAVAIL : EADDRINUSE); }
    int nc = (int)r.range(1, th ? 6 : 4); for (int i = 0; i < nc; i++) { Item &c = simple_conn(p, r, i + 1, r.range(0, 3000), r.range(4, 5000), r.range(4, 5000)); if (who == "s") to_spipe(c); }
    if (r.chance(0.4)) { static const char *C[] = {"socket", "connect", "fcntl", "setsockopt", "bind"}; const char *c = C[r.below(5)]; p.add("lfault").set("call", c).set("nth", r.range(1, 6)).set("err", c[0] == 's' && c[1] == 'o' ? EMFILE : c[0] == 'b' ? EADDRINUSE : c[0] == 'c' ? ENETUNREACH : EINVAL); }
    if (r.chance(0.3)) p.add("flip").set("at", 1000 + r.range(0, 3000)).set("which", r.range(0, n - 1)).set("to", r.chance(0.5) ? "good" : "refused");
}
static void run_p13(World &w) {
    Item &p = w.plan.p; string who = p.s("who", "d"), f = p.s("f"); string name = who == "d" ? "target.example" : "server.example"; int port = who == "d" ? 8003 : 8002; i64 o = p.n("o", 5) * SEC;
    vector<std::pair<string, string>> L; for (auto &x : splitw(p.s("list"), ',')) { size_t i = x.find('='); L.push_back({x.substr(0, i), x.substr(i + 1)}); w.dns_tab[name].push_back(L.back().first); }
    auto full = [&](const string &ip) { return v6(ip) ? fmt("[%s]:%d", ip.c_str(), port) : fmt("%s:%d", ip.c_str(), port); };
    bool bound = p.has("bind"); string bip = bound ? p.s("bind") : ""; bool b6 = bip.find("fd00") != string::npos; w.dns_tab["bound.example"] = {"10.9.9.9"};
    auto behave = [&w, full, who](const string &ip, const string &b) { string a = full(ip); sim->blackhole.erase(a); auto i = sim->listeners.find(a); bool up = i != sim->listeners.end(); bool good = b == "good" || b.compare(0, 5, "slow:") == 0; (void)up;
        if (who == "d") { if (good && !up) w.start_target(a); if (!good && up) { auto s = i->second; s->refs = 0; s->on_last_close(); } }
        if (b != "refused" && b != "good") sim->blackhole[a] = b == "late_rst" ? "rst" : b == "late_unreach" ? "unreach" : b; else if (b == "refused" && who != "d") sim->blackhole[a] = "rst"; };
    struct Att { i64 t; string dst, from; Flow *f; }; map<u64, vector<Att>> att; map<string, vector<Att>> satt; auto of = sim->on_flow;
    sim->on_flow = [&, of](Flow *f) { of(f); if (!f->init_proc || f->src == "socketpair") return; string pn = f->init_proc->name; if (who == "s" ? pn.compare(0, 5, "spipe") == 0 : f->init_proc == w.P(who)) { Att a{sim->now, f->dst, f->init_bound, f}; if (who == "s") satt[pn].push_back(a); else att[w.parent[f->id]].push_back(a); } };
    if (who == "d") { for (auto &x : L) behave(x.first, x.second); }
    else { w.start_target(); for (auto &x : L) behave(x.first, x.second); }
    vector<string> d = {"-d", "-F", "-s", who == "d" ? A(w.d_addr) : "[0.0.0.0]:8002", "-t", who == "d" ? name + ":8003" : A(w.t_addr), "-k", "/key"}, e = {"-e", "-F", "-s", A(w.e_addr), "-t", who == "e" ? name + ":8002" : A(w.d_addr), "-k", "/key"}, s;
    if (who != "d") w.d_addr = "0.0.0.0:8002";
    auto &x = who == "d" ? d : who == "e" ? e : s; x.push_back("-o"); x.push_back(fmt("%d", (int)p.n("o", 5))); if (bound) { x.push_back("-b"); x.push_back(bip); } for (auto *v : {&d, &e, &s}) if (!f.empty()) v->push_back(f);
    w.spawn("d", "spiped", d); if (who != "s") w.spawn("e", "spiped", e);
    if (p.n("binderr")) { sim->bind_err[b6 ? "[fd00::99]" : "10.9.9.9"] = (int)p.n("binderr"); }
    int nlf = 0; set<i64> flips; vector<i64> tflip;
    for (auto &i : w.plan.items) { Item it = i; if (i.kind == "lfault") { w.at_ms(900, [&w, it, who] { if (who == "s") return; Process *q = w.P(who); Fault fl; fl.proc = who; fl.call = it.s("call"); fl.nth = (i64)q->ncalls[it.s("call")] + it.n("nth"); fl.err = (int)it.n("err"); sim->faults.push_back(fl); }); if (who != "s") nlf++; }
        else if (i.kind == "flip") { tflip.push_back(it.n("at") * MS); w.at_ms(i.n("at"), [&, it] { auto &y = L[(size_t)it.n("which") % L.size()]; sim->fire("address_behaviour_changed"); behave(y.first, it.s("to")); }); } }
    if (who == "s") { w.d_addr = name + ":8002"; }
    for (auto &i : w.plan.items) { Item it = i; if (i.kind == "conn") w.at_ms(1000 + i.n("at"), [&w, it] { w.client(it, w.e_addr); }); else if (i.kind == "spipe") w.at_ms(1000 + i.n("at"), [&w, it, s] { w.spipe(it, s); }); }
    run_until_done(w, 300);
    w.may_exit.clear(); if (nlf) { for (auto &n : {"fcntl", "setsockopt"}) for (auto &i : w.plan.items) if (i.kind == "lfault" && i.s("call") == n) { w.may_exit.insert(who); nlf = 99; } }   // (may also hit the accepted connection)
    w.check_procs(); if (nlf == 99 && !w.alive(who)) return;
    vector<i64> tf = tflip;
    for (auto c : w.clients) {
        u64 wid = 0; for (auto q : w.wire) if (w.client_of(q) == c) wid = q->id;
        vector<Att> &A_ = who == "s" ? satt[fmt("spipe%d", c->id)] : att[who == "e" ? c->flow_id : wid];
        string seq; for (auto &a : A_) seq += (seq.empty() ? "" : " ") + a.dst; string nm = fmt("connection %d", c->id);
        bool amb = false; if (!A_.empty()) for (i64 t : tf) if (t >= A_[0].t - 50 * MS && t <= A_.back().t + 3 * SEC) amb = true;
        // behaviours in force when this connection was made
        vector<std::pair<string, string>> cur; for (auto &q : splitw(p.s("list"), ',')) { size_t i = q.find('='); cur.push_back({q.substr(0, i), q.substr(i + 1)}); }
        for (auto &i : w.plan.items) if (i.kind == "flip" && !A_.empty() && i.n("at") * MS < A_[0].t) cur[(size_t)i.n("which") % cur.size()].second = i.s("to");
        // expected attempts
        vector<string> exp; int good = -1; bool stuck = false; i64 slow = 0, esum = 0;
        for (size_t i = 0; i < cur.size(); i++) { auto &y = cur[i]; if (bound && (p.n("binderr") || v6(y.first) != b6)) continue; exp.push_back(full(y.first)); if (y.second == "good") { good = (int)exp.size() - 1; break; } if (y.second.compare(0, 5, "slow:") == 0) { slow = atoll(y.second.c_str() + 5) * MS; good = (int)exp.size() - 1; break; } if (y.second == "drop") { stuck = true; break; } if (y.second.compare(0, 4, "err:") == 0) esum += atoll(y.second.c_str() + y.second.rfind(':') + 1) * MS; }
        if (esum > 0 && esum + slow > o - 400 * MS) amb = true;
        if (slow > o - 300 * MS && slow < o + 300 * MS) amb = true;
        for (auto &a : A_) { // bound to the configured address, and nothing for an address that failed
            if (bound && !p.n("binderr")) { string want = b6 ? "fd00::99" : "10.9.9.9"; if (a.from.find(want) == string::npos || (bip.find("4321") != string::npos && a.from.find(":4321") == string::npos)) w.v(fmt("%s: attempt to %s came from '%s' instead of %s", nm.c_str(), a.dst.c_str(), a.from.c_str(), bip.c_str())); else sim->probe("bound_source_checked"); }
            if (!bound && !a.from.empty()) w.v(nm + ": an attempt was bound to an address although none was asked for");
            if (!a.f->established && a.f->sent_total[0]) w.v(nm + ": data was sent towards an address that did not connect"); }
        if (amb) { sim->probe("ambiguous_timing"); continue; }
        string es; for (auto &q : exp) es += (es.empty() ? "" : " ") + q;
        if (nlf == 0) { if (seq != es) { w.v(fmt("%s: attempts were [%s], expected [%s]", nm.c_str(), seq.c_str(), es.c_str())); continue; } sim->probe("attempt_order_checked"); if (exp.size() > 1) sim->probe("fell_back"); }
        else { // a local failure skips an address: attempts must follow the list in order
            size_t pos = 0; bool ok = true; for (auto &a : A_) { while (pos < cur.size() && full(cur[pos].first) != a.dst) pos++; if (pos++ >= cur.size()) ok = false; } if (!ok) w.v(fmt("%s: attempts [%s] do not follow the order of the addresses", nm.c_str(), seq.c_str())); }
        if (nlf) { if (c->over() && !c->clean() && c->rxn) w.v(nm + ": partly served"); continue; }
        bool served = good >= 0 && slow <= o && !stuck;
        if (served) { w.check_complete(c); if (who == "s") { Process *q = c->spipe_proc; if (q->alive || q->status || q->termsig) w.v(nm + ": the client program did not report success"); } }
        else { sim->probe("all_addresses_failed"); if (c->rxn) w.v(nm + ": received data although no address could be connected"); if (!c->over()) w.v(nm + ": not dropped although no address can be connected"); if (who == "s") { Process *q = c->spipe_proc; if (q->alive) w.v(nm + ": the client program is still running"); else if (q->status == 0 && !q->termsig) w.v(nm + ": the client program reported success"); }
            i64 t0 = A_.empty() ? 0 : A_[0].t, te = c->t_eof >= 0 ? c->t_eof : c->t_end; if (stuck && te >= 0 && te < t0 + o - 100 * MS && !A_.empty() && who != "d") w.v(nm + ": dropped before the time limit while an attempt was pending"); }
        for (size_t i = 0; i + 1 < A_.size(); i++) if (A_[i].f->established && A_[i].f->sent_total[0]) w.v(nm + ": data was sent to an address and the next one was tried as well");
    }
}

// ---------------------------------------------------------------- P14
static void gen_p14(Plan &p, Rng &r, bool th) {
    net_params(p, r, r.chance(0.6)); if (p.p.n("segmax") < 50) p.p.set("segmax", 100); p.p.set("rstd", (i64)r.below(2)); static const i64 pb[] = {512, 4096, 65536}; p.p.set("pipebuf", pb[r.below(3)]);
    static const char *M[] = {"ok", "ok", "ok", "ok", "ok", "refused", "drop", "wrongkey", "silent", "garbage", "fin", "tamper", "tamper", "rst", "rst", "serverkill", "targetrst", "sigterm", "stdinerr", "epipe", "stdouterr", "refusedtarget", "nokey", "noname", "sigrst"};
    string m = M[r.below(25)]; p.p.set("mode", m); p.p.set("o", r.range(1, 6)); p.p.set("f", r.chance(0.8) ? "-f" : ""); p.p.set("j", (i64)r.chance(0.1));
    int n = m == "ok" ? (int)r.range(1, th ? 4 : 3) : 1;
    for (int i = 0; i < n; i++) { Item &c = add_conn(p, r, i + 1, r.range(0, 1000), 60000); to_spipe(c); if (c.n("fin", 1) == 2) c.kv.erase("fin"); c.kv.erase("d_wait");
        if (m != "ok" && r.chance(0.6)) { c.set("fin", 9); if (r.chance(0.5)) c.set("gap", r.range(1000, 200000)).set("chunk", 100); } // standard input stays open
        if (m == "tamper" || m == "rst" || m == "serverkill" || m == "sigterm" || m == "sigrst" || m == "stdouterr" || m == "epipe") { c.set("n", r.range(1000, 30000)).set("d_n", r.range(1000, 30000)).set("d_chunk", 1000).set("d_gap", r.range(1, 100000)).set("chunk", 1000); c.kv.erase("stop"); c.kv.erase("d_stop"); c.kv.erase("d_fin"); c.kv.erase("rdsize"); c.kv.erase("d_rdsize"); c.kv.erase("rdelay"); c.kv.erase("d_rdelay"); c.kv.erase("d_findelay"); }
        if (r.chance(0.3)) c.set("incap", pb[r.below(3)]); if (r.chance(0.3)) c.set("outcap", pb[r.below(3)]); }
    p.p.set("T", 1000 + r.range(0, 3500)); p.p.set("len", r.range(0, 600)); p.p.set("pkt", r.range(0, 20)).set("off", r.range(0, 1059)).set("bit", r.range(0, 7)); p.p.set("dir", (i64)r.below(2));
    shrink_for_seg(p);
}
struct FlipOne : Mitm { int dir; u64 at; int bit; u64 seen = 0; bool done = false; i64 t = -1; FlipOne(int d, u64 a, int b) : dir(d), at(a), bit(b) {}
    void data(Flow *f, int d, const string &s) override { string x = s; if (d == dir && !done) { if (at >= seen && at < seen + x.size()) { x[at - seen] ^= (char)(1 << bit); done = true; t = sim->now; sim->fire("mitm_flip"); } seen += s.size(); } f->emit(d, x); } };
static void run_p14(World &w) {
    Item &p = w.plan.p; string m = p.s("mode"); i64 o = p.n("o", 5) * SEC, T = p.n("T") * MS; string f = p.s("f"); sim->fire("client_mode_" + m);
    if (m == "refusedtarget") { } else w.start_target();
    vector<string> d = {"-d", "-F", "-s", A(w.d_addr), "-t", A(w.t_addr), "-k", "/key", "-o", "20"}, s = {"-o", fmt("%d", (int)p.n("o", 5))}; if (!f.empty()) { d.push_back(f); s.push_back(f); } if (p.n("j")) s.push_back("-j");
    bool real = m != "refused" && m != "drop" && m != "silent" && m != "garbage" && m != "fin"; if (real) w.spawn("d", "spiped", d);
    if (m == "drop") sim->blackhole[w.d_addr] = "drop";
    if (m == "silent" || m == "garbage" || m == "fin") w.raw_server(w.d_addr, [&, m](RawPeer *q, int) { if (m == "garbage") q->to_send = string((size_t)p.n("len", 0) + 400, 'g'); if (m == "fin") { q->to_send = string((size_t)p.n("len") % 320, 'f'); q->fin_after = true; q->close_at = sim->now + 300 * MS; q->kick_at(q->close_at); } });
    shared_ptr<FlipOne> fo; Flow *wf = nullptr; w.on_wire = [&](Flow *f) { wf = f; if (m == "tamper") { fo = make_shared<FlipOne>((int)p.n("dir"), 320 + p.n("pkt") * 1060 + p.n("off"), (int)p.n("bit")); f->mitm = fo; } };
    // when did the far end's stream to the client end, and when did a reset reach the client?
    bool remote_ended_at_T = false; App *tgt = nullptr; w.on_target = [&](App *t) { tgt = t; };
    w.common_items();
    for (auto &i : w.plan.items) if (i.kind == "spipe") { Item it = i; if (m == "wrongkey") it.set("key", "/key2"); if (m == "nokey") it.set("key", "/nokey"); w.at_ms(1000 + i.n("at"), [&w, it, s, m] { if (m == "noname") { w.dns_err["nowhere.example"] = -2; string sv = w.d_addr; w.d_addr = "nowhere.example:8002"; w.spipe(it, s); w.d_addr = sv; } else w.spipe(it, s); }); }
    i64 tact = -1; u64 rx_at = 0; Process *sp = nullptr; bool active_at_T = false;
    sim->at(T, [&] { if (w.clients.empty()) return; App *c = w.clients[0]; sp = c->spipe_proc; if (!sp->alive) return; tact = sim->now; active_at_T = true; remote_ended_at_T = tgt && (tgt->fin_sent || tgt->closed);
        if (m == "rst") { if (wf && wf->established) { wf->emit_rst(0); wf->emit_rst(1); sim->fire("network_rst"); } else tact = -1; }
        else if (m == "serverkill") w.kill("d", SIGKILL);
        else if (m == "targetrst") { if (tgt && !tgt->closed) { tgt->aborted = true; tgt->abort_rst = true; tgt->end(); } else tact = -1; }
        else if (m == "sigterm" || m == "sigrst") sim->signal_proc(sp, SIGTERM);
        else if (m == "stdinerr") { Fault fl; fl.proc = sp->name; fl.call = "read"; fl.nth = (i64)sp->ncalls["read"] + 1; fl.err = EIO; sim->faults.push_back(fl); }
        else if (m == "epipe") { if (c->pout) { c->pout->readers = 0; } rx_at = c->rxn; if (c->pout) rx_at += c->pout->size(); }
        else if (m == "stdouterr") { Fault fl; fl.proc = sp->name; fl.call = "write"; fl.nth = (i64)sp->ncalls["write"] + 1 + p.n("len") % 4; fl.err = p.n("bit") & 1 ? ENOSPC : EIO; sim->faults.push_back(fl); } });
    auto oc = sim->on_call; bool hit = false;                 // the connection is reset while the client is shutting down
    if (m == "sigrst") sim->on_call = [&, oc](Process *q, const string &c) { if (oc) oc(q, c); if (!hit && c == "pthread_cancel" && tact >= 0 && q == sp && wf && wf->established) { hit = true; wf->emit_rst(1, (int)p.n("len") % 40); wf->emit_rst(0); sim->fire("reset_during_shutdown"); } };
    w.may_exit.insert("d"); i64 endt = 120; run_until_done(w, endt); sim->run(std::max(sim->now, T) + 3 * SEC + o);
    w.check_procs();
    for (auto c : w.clients) {
        Process *q = c->spipe_proc; string nm = fmt("client %d", c->id); App *t = c->peer; if (!t) for (auto q : w.wire) if (w.client_of(q) == c) t = w.target_of(q);
        string st = q->alive ? "still running" : q->termsig ? fmt("killed by signal %d", q->termsig) : fmt("exited with %d", q->status); bool okexit = !q->alive && q->status == 0 && !q->termsig, failed = !q->alive && !okexit;
        if (m == "ok") { w.check_complete(c); if (!okexit) { w.v(fmt("%s: both directions ended normally, but it %s: %s", nm.c_str(), st.c_str(), q->err_out.substr(0, 200).c_str())); continue; }
            i64 last = std::max({c->t_last_rx, t ? t->t_eof : 0, t ? t->t_end : 0, c->t_end >= q->t_exit ? 0 : c->t_end}); if (q->t_exit > last + 2 * SEC) w.v(fmt("%s ended only %.2f s after both directions had ended", nm.c_str(), (q->t_exit - last) / 1e9)); else sim->probe("success_checked"); continue; }
        auto must_fail = [&](i64 by, const char *why) { if (q->alive) { w.v(fmt("%s: %s, but it is still running %.1f s later", nm.c_str(), why, (sim->now - by) / 1e9)); return; } if (okexit) { w.v(fmt("%s: %s, but it reported success", nm.c_str(), why)); return; } if (q->t_exit > by) w.v(fmt("%s: %s, but it exited %.2f s too late", nm.c_str(), why, (q->t_exit - by) / 1e9)); else sim->probe("failure_checked_" + m); };
        i64 t0 = q->t_start;
        if (m == "refused") must_fail(t0 + SEC, "nobody listens at the target");
        else if (m == "nokey") must_fail(t0 + SEC, "its key file does not exist");
        else if (m == "noname") must_fail(t0 + SEC, "the target name does not exist");
        else if (m == "drop") must_fail(t0 + o + SEC, "the target does not answer");
        else if (m == "silent") must_fail(t0 + o + SEC, "the target does not answer the handshake");
        else if (m == "garbage" || m == "fin" || m == "wrongkey") must_fail(t0 + o + SEC, "the handshake cannot succeed");
        else if (m == "refusedtarget") { if (okexit && c->rxn) w.v(nm + ": received data from nowhere"); if (q->alive && c->fin_sent) w.v(nm + ": the far end dropped the connection and standard input has ended, but it is still running"); }
        else if (m == "tamper") { if (fo && fo->done && fo->dir == 1 && !(fo->t < 0)) { must_fail(fo->t + 2 * SEC, "a packet from the far end was changed on the way"); } else if (!fo || !fo->done) { if (!okexit && c->sc.n("fin", 1) != 9) w.v(fmt("%s: nothing was changed, but it %s", nm.c_str(), st.c_str())); } }
        else if (m == "rst") { if (tact >= 0 && !remote_ended_at_T) must_fail(tact + 2 * SEC, "its connection was reset"); }
        else if (m == "targetrst") { if (tact >= 0 && okexit && t && c->rxn < t->total && t->total) { sim->probe("undetectable_abort"); } if (q->alive && tact >= 0 && c->fin_sent && !c->gap) w.v(nm + ": still running although the far application is gone and standard input has ended"); }
        else if (m == "serverkill") { if (tact >= 0 && q->alive && c->fin_sent) w.v(nm + ": still running although the server is gone and standard input has ended"); }
        else if (m == "sigterm" || m == "sigrst") { if (tact >= 0 && (q->alive || q->t_exit > tact + 2500 * MS)) w.v(nm + ": still running 2.5 s after SIGTERM"); else if (tact >= 0) sim->probe("sigterm_checked"); }
        else if (m == "stdinerr") { bool hit = false; for (auto &x : sim->faults) if (x.call == "read" && x.used) hit = true; if (tact >= 0 && hit) { if (okexit) w.v(nm + ": reported success although reading standard input failed"); else if (q->alive) w.v(nm + ": reading standard input failed, but it is still running"); else sim->probe("failure_checked_stdinerr"); } }
        else if (m == "stdouterr") { bool hit = false; for (auto &x : sim->faults) if (x.call == "write" && x.used) hit = true; if (tact >= 0 && hit) { if (okexit) w.v(nm + ": reported success although writing failed"); else if (q->alive) w.v(nm + ": writing failed, but it is still running"); else sim->probe("failure_checked_stdouterr"); } }
        else if (m == "epipe") { if (tact >= 0 && c->pout && t) { if (okexit && t->sent > rx_at) w.v(fmt("%s: reported success although standard output was closed after %llu of %llu bytes", nm.c_str(), (unsigned long long)rx_at, (unsigned long long)t->sent)); else if (t->sent > rx_at + 2000) { if (q->alive) w.v(nm + ": its standard output was closed while there was more to write, but it is still running"); else sim->probe("failure_checked_epipe"); } } }
        if (okexit && m.compare(0, 3, "sig") && c->sc.n("fin", 1) == 9) w.v(nm + ": reported success although standard input had not ended");
        (void)failed;
    }
}
extern const PropDef props4[] = {{"P12", gen_p12, run_p12}, {"P13", gen_p13, run_p13}, {"P14", gen_p14, run_p14}, {nullptr, nullptr, nullptr}};
