// P19 P20 P21: daemon start-up, key files, privilege drop
#include "props.h"
#include <algorithm>
[[noreturn]] void proc_exit_now(int status, int sig, const string &how);

static string jn(const string &a, const string &b) { return a.empty() || b.empty() ? a + b : a + "_" + b; }
static Process *child_of(Process *p) { for (auto q : sim->procs) if (q->parent == p) return q; return nullptr; }

// the option parser gives up with a message and abort() when it gets no memory: an orderly end
static void getopt_aborts() { for (auto q : sim->procs) if (q->exit_how == "abort()" && q->err_out.find("Failed to allocate memory in getopt") != string::npos) { q->exit_how = "exit"; q->termsig = 0; q->status = 1; sim->probe("option_parser_gave_up"); } }

// ---------------------------------------------------------------- P19
struct DF { const char *who, *call; int err; int nth; };
static const DF DFS[] = {{"d", "pipe", EMFILE, 1}, {"d", "fork", EAGAIN, 1}, {"d", "fork", ENOMEM, 1}, {"d", "read", EIO, 4}, {"d", "read", EINTR, 4}, {"d", "malloc", ENOMEM, 40}, {"d'", "setsid", EPERM, 1}, {"d'", "fopen", EACCES, 1}, {"d'", "fopen", ENOSPC, 1}, {"d'", "open", EMFILE, 1}, {"d'", "write", ENOSPC, 1}, {"d'", "write", EIO, 2}, {"d'", "write", EINTR, 2}, {"d'", "close", EIO, 1}, {"d'", "close", ENOSPC, 1}, {"d'", "fclose", EIO, 1}, {"d'", "malloc", ENOMEM, 60}};
static void gen_p19(Plan &p, Rng &r, bool) {
    net_params(p, r, false); p.p.kv.erase("p_eintr"); p.p.setf("p_yield", r.chance(0.5) ? 0.5 : 0.1); if (r.chance(0.3)) p.p.setf("p_short", 0.5); if (r.chance(0.25)) p.p.setf("p_eintr", r.chance(0.5) ? 0.05 : 0.4);
    p.p.set("enc", (i64)r.chance(0.3)); if (r.chance(0.4)) p.p.set("saddr", "/run/d.sock"); if (r.chance(0.5)) p.p.set("pid", r.chance(0.5) ? "/run/my.pid" : "/var/p"); if (r.chance(0.4)) p.p.set("stale", r.range(1, 12)); if (r.chance(0.2)) p.p.set("syslog", 1); if (r.chance(0.2)) p.p.set("u", "svc:grp"); if (r.chance(0.1)) p.p.set("bind", 1);
    if (r.chance(0.4)) { p.p.set("D", 1); if (r.chance(0.7)) { p.p.set("named", 1); p.p.set("late", r.chance(0.5) ? r.range(1, 20) : 0); if (r.chance(0.3)) p.p.set("dnsms", r.range(0, 3000)); } if (r.chance(0.3)) p.p.set("sname", 1); }
    else if (r.chance(0.15)) p.p.set("busy", 1);      // the address is already taken
    else if (r.chance(0.15)) { p.p.set("named", 1); if (r.chance(0.5)) p.p.set("late", 100); if (r.chance(0.5)) p.p.set("dnsms", r.range(0, 3000)); }
    int nf = r.chance(0.35) ? 0 : r.chance(0.8) ? 1 : 2;
    for (int i = 0; i < nf; i++) { int k = (int)r.below(10);
        if (k < 4) { const DF &f = DFS[r.below(sizeof DFS / sizeof *DFS)]; Item &q = p.add("sf"); q.set("who", f.who).set("call", f.call).set("err", f.err).set("nth", r.range(1, f.nth)); }
        else if (k < 8) { bool ch = r.chance(0.8); p.add("killstep").set("who", ch ? "d'" : "d").set("step", ch ? r.range(1, 24) : r.range(1, 80)).set("sig", r.chance(0.7) ? 9 : 15); }
        else p.add("pausestep").set("who", r.chance(0.6) ? "d'" : "d").set("step", r.range(1, 24)).set("for", r.range(1, 30000)); }
    p.p.set("client", r.range(2500, 4000));
}
static void run_p19(World &w) {
    Item &p = w.plan.p; w.allow_raw = true; w.may_exit = {"d", "d'"}; bool D = p.n("D"), enc = p.n("enc"), named = p.n("named"); string s = p.s("saddr", "10.0.0.2:8002"), pid = p.s("pid", (A(s) + ".pid").c_str()); if (p.n("sname")) { s = "10.0.0.2:8002"; pid = p.s("pid", "svc.example:8002.pid"); }
    w.d_addr = s; if (p.has("stale")) sim->mkfile(pid, string((size_t)p.n("stale"), '9') + "\n");
    auto names = [&] { w.dns_err.clear(); w.dns_tab["target.example"] = {"10.0.0.3"}; w.dns_tab["svc.example"] = {"10.0.0.2"}; };
    names(); if (p.n("late")) { w.dns_err["target.example"] = w.dns_err["svc.example"] = -3; sim->at(p.n("late") * SEC, names); sim->fire("names_fail_at_first"); } if (p.n("dnsms")) w.dns_delay["target.example"] = w.dns_delay["svc.example"] = p.n("dnsms") * MS;
    if (enc) w.ref_server(w.t_addr, w.key); else w.start_target();
    if (p.n("busy")) { if (s[0] == '/') { auto i = sim->mkfile(s, ""); i->is_socket = true; } sim->nat_listen(s, nullptr, [](SockP x) { sim->nat_close(x); }); sim->fire("address_taken"); }
    bool faulty = false, launcher_faulty = false, killed_c = false, killed_l = false; i64 extra = 0;
    struct Step { string who; i64 step; int sig; i64 pause; }; auto steps = make_shared<vector<Step>>();
    for (auto &i : w.plan.items) { if (i.kind == "sf") { Fault f; f.proc = i.s("who"); f.call = i.s("call"); f.nth = i.n("nth"); f.err = (int)i.n("err"); sim->faults.push_back(f); }
        if (i.kind == "killstep") steps->push_back({i.s("who"), i.n("step"), (int)i.n("sig"), 0}); if (i.kind == "pausestep") { steps->push_back({i.s("who"), i.n("step"), 0, i.n("for")}); extra += i.n("for") * MS; } }
    auto old = sim->on_call; sim->on_call = [old, steps](Process *q, const string &c) { old(q, c); if (q->in_exit) return; for (auto &x : *steps) if (x.who == q->name && (i64)q->steps == x.step) { if (x.pause) { q->paused_until = sim->now + x.pause * MS; sim->fire("process_paused"); } else { sim->fire(x.who == "d" ? "launcher_killed" : "daemon_killed_starting"); q->marks["killed"] = 1; proc_exit_now(0, x.sig, "killed"); } } };
    vector<string> a = {enc ? "-e" : "-d", "-s", p.n("sname") ? "svc.example:8002" : A(s), "-t", named ? "target.example:8003" : A(w.t_addr), "-k", "/key", "-f", "-R"}; if (D) a.push_back("-D"); if (p.has("pid")) { a.push_back("-p"); a.push_back(pid); } if (p.n("syslog")) a.push_back("--syslog"); if (p.has("u")) { a.push_back("-u"); a.push_back(p.s("u")); } if (p.n("bind")) { a.push_back("-b"); a.push_back("[10.0.0.9]"); }
    Process *l = w.spawn("d", "spiped", a), *c = nullptr; string at_exit; bool listening = false, c_alive = false, had_sid = false; i64 t_l = -1;
    sim->on_proc_exit = [&](Process *q) { if (q != l) return; t_l = sim->now; c = child_of(l); if (sim->fs.count(pid)) at_exit = sim->fs[pid]->data; if (c) { c_alive = c->alive; had_sid = c->setsid_done; auto li = sim->listeners.find(w.d_addr); if (li != sim->listeners.end()) for (auto &e : c->fds) if (e.f.get() == li->second.get()) listening = true; } };
    i64 lim = 3 * SEC + extra + (D ? 0 : p.n("dnsms") * MS * 3);
    sim->run(lim);
    steps->clear(); c = child_of(l); w.may_exit.insert("sig:d'"); getopt_aborts();
    for (auto &f : sim->faults) if (f.used) { faulty = true; if (f.proc == "d") launcher_faulty = true; } killed_l = l->marks.count("killed"); killed_c = c && c->marks.count("killed");
    sim->faults.clear(); bool cause = faulty || killed_l || killed_c || (!D && (p.n("late") || p.n("busy")));
    if (l->alive) { w.v(fmt("the launching command has not returned after %.1f s%s", lim / 1e9, killed_c ? " although the daemon was killed while starting" : "")); return; }
    sim->probe(l->status == 0 && !killed_l ? "launcher_success" : "launcher_failure"); if (killed_c && l->status) sim->probe("death_of_daemon_reported");
    if (!killed_l && l->status == 0) {
        if (!c) w.v("the launching command reported success without leaving a daemon"); else {
            if (!had_sid) w.v("the launching command reported success before the daemon was detached");
            if (at_exit != std::to_string(c->pid)) w.v(fmt("the launching command reported success but the pid file holds '%s' instead of %d", at_exit.c_str(), c->pid));
            if (!D && c_alive && !listening && !faulty) w.v("the launching command reported success but the daemon is not listening"); sim->probe("success_checked"); }
    } else if (!killed_l) {
        if (!cause) w.v(fmt("the launching command failed although nothing went wrong: %s", l->err_out.substr(0, 200).c_str()));
        if (l->err_out.empty() && !(faulty && l->status)) w.v("the launching command failed without saying why");
        if (c && c->alive && !launcher_faulty) w.v("the launching command reported failure but a daemon is running"); sim->probe("failure_checked");
    }
    if (c && c->exited && !killed_c && !faulty && !p.n("late") && !p.n("busy") && !killed_l) w.v(fmt("the daemon ended although nothing went wrong: %s", c->err_out.substr(0, 200).c_str()));
    w.check_procs(); if (!sim->viol.empty()) return;
    if (c && c->alive && !cause) {
        i64 up = extra + p.n("late") * SEC + p.n("dnsms") * MS * (4 + p.n("late")) + 3 * SEC; sim->run(std::max(sim->now, up)); w.proc["d'"] = c;
        if (D && p.n("late") && c->err_out.empty() && c->syslog_out.empty()) sim->probe("waited_silently");
        Item ci; ci.kind = "conn"; ci.set("id", 1).set("n", 3000).set("d_n", 3000); App *x = enc ? w.client(ci, s) : w.ref_client(ci, s, w.key); sim->run(sim->now + 15 * SEC); w.check_complete(x); sim->probe("served_after_start");
        if (sim->fs[pid]->data != std::to_string(c->pid)) w.v("the pid file does not hold the daemon's process id"); 
        if (!p.has("stale") && (sim->fs[pid]->mode & 022)) w.v(fmt("the pid file can be written by other users (mode %o)", sim->fs[pid]->mode)); else sim->probe("file_modes_checked");
        if (s[0] == '/' && sim->fs.count(s) && (sim->fs[s]->mode & 022)) w.v(fmt("the socket can be written by other users (mode %o)", sim->fs[s]->mode));
        if (p.has("u") && (c->uid != 123 || c->euid != 123 || c->gid != 321)) w.v("the daemon serves with the wrong credentials");
        sim->signal_proc(c, SIGTERM); sim->run(sim->now + 4 * SEC); if (c->alive) w.v("the daemon did not exit after SIGTERM"); else { if (c->status || c->termsig) w.v(fmt("the daemon's exit status is %d (signal %d) after SIGTERM", c->status, c->termsig));
            if (c->marks["exit_live_blocks"]) w.v(fmt("the daemon left %lld memory block(s) behind when it ended", (long long)c->marks["exit_live_blocks"])); if (c->marks["exit_live_fds"] > 3) w.v(fmt("the daemon left %lld descriptor(s) open when it ended", (long long)c->marks["exit_live_fds"] - 3)); }
        w.check_procs();
    }
}

// ---------------------------------------------------------------- P20
static void gen_p20(Plan &p, Rng &r, bool) {
    net_params(p, r, false); p.p.kv.erase("p_eintr"); if (r.chance(0.5)) p.p.setf("p_short", r.chance(0.5) ? 0.9 : 0.2); if (r.chance(0.2)) p.p.setf("p_eintr", r.chance(0.5) ? 0.02 : 0.2);
    static const i64 SZ[] = {0, 1, 2, 16, 31, 32, 33, 63, 64, 65, 100, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 20000, 65536, 100000}; i64 n = r.chance(0.7) ? SZ[r.below(sizeof SZ / sizeof *SZ)] : r.range(0, 30000); static const i64 BG[] = {131072, 131073, 262145, 524289, 1048575, 1048576, 1048577, 1100000, 2097153, 4200000}; bool huge = r.chance(0.02); if (huge) n = BG[r.below(10)];
    p.p.set("n", n).set("content", (i64)r.below(4)).set("prog", r.chance(0.35) ? "d" : r.chance(0.5) ? "e" : "spipe"); int via = (int)r.below(4); if (p.p.s("prog") == "spipe" && via > 1) via = 0; p.p.set("via", via > 1 ? (via == 2 ? "pipe" : "stdin") : "file");
    int k = (int)r.below(10); if (k < 4) { p.p.set("err_off", r.chance(0.3) ? 0 : r.chance(0.3) ? n : r.range(0, n)).set("err", r.chance(0.6) ? EIO : r.chance(0.5) ? EISDIR : ESTALE); if (p.p.n("err_off") == 0 && p.p.n("err") == EISDIR) {} else if (p.p.n("err") == EISDIR) p.p.set("err", EIO); }
    else if (k < 5) p.p.set("missing", 1); else if (k < 7) { p.add("fault").set("proc", "*").set("call", r.chance(0.8) ? "read" : "fopen").set("nth", r.range(1, std::max<i64>(2, n / 2000))).set("err", r.chance(0.5) ? EIO : EINTR); }
    if (p.p.s("via") == "pipe") p.p.set("wchunk", r.chance(0.3) ? 1 + n / 3 : r.range(1, 9000)).set("wgap", r.chance(0.5) ? 0 : r.range(1, 2000)).set("pipebuf", r.chance(0.5) ? 4096 : 65536); if (p.p.s("via") == "pipe" && p.p.n("wchunk") < n / 40) p.p.set("wchunk", n / 40 + 1); if (huge) { p.p.set("wgap", 0).set("pipebuf", 65536).set("wchunk", std::max<i64>(p.p.n("wchunk"), 30000)); }
    p.p.set("pfs", (i64)r.chance(0.15));
}
static void run_p20(World &w) {
    Item &p = w.plan.p; w.strict_exit = false; size_t n = (size_t)p.n("n"); string prog = p.s("prog"), via = p.s("via"), key(n, 0); Rng kr(w.plan.seed, 71); int ct = (int)p.n("content"); for (size_t i = 0; i < n; i++) key[i] = ct == 0 ? (char)kr.next() : ct == 1 ? 0 : ct == 2 ? "0123456789abcdef\n"[kr.below(17)] : (char)(i & 1 ? '\n' : 0xff);
    auto ino = sim->mkfile("/k", key); if (p.has("err_off") && via != "pipe") ino->rd_err[(size_t)p.n("err_off")] = (int)p.n("err"); if (p.n("missing") && via == "file") { sim->fs.erase("/k"); sim->fire("key_file_missing"); }
    for (auto &i : w.plan.items) if (i.kind == "fault") { Fault f; f.proc = i.s("proc"); f.call = i.s("call"); f.nth = i.n("nth"); f.err = (int)i.n("err"); sim->faults.push_back(f); }
    App *x = nullptr; Process *q = nullptr; bool pfs = p.n("pfs"); vector<string> net; i64 t_ready = -1; bool early = false; bool *pearly = &early; bool open_stdin = via == "pipe"; bool *popen = &open_stdin;
    auto old = sim->on_call; sim->on_call = [old, pearly, popen, &t_ready](Process *z, const string &c) { old(z, c); if (c == "listen" || c == "connect" || c == "socketpair") { if (t_ready < 0) t_ready = sim->now; if (*popen) *pearly = true; } };
    string kp = via == "file" ? "/k" : "-"; vector<string> fl; if (!pfs) fl.push_back("-f");
    auto start = [&](const char *nm, vector<string> a) { a.insert(a.end(), fl.begin(), fl.end()); q = w.spawn(nm, "spiped", a); };
    auto wired = [&] {
        if (via == "file") return; auto put = [&](FileP f) { FileP o = q->fds[0].f; if (o) o->refs--; q->fds[0].f = f; f->refs = 1; f->owners.push_back(q); };
        if (via == "stdin") { auto f = make_shared<RegFile>(); f->ino = ino; put(f); return; }
        auto b = make_shared<PipeBuf>(); b->cap = (size_t)p.n("pipebuf", 65536); b->writers = 1; put(make_shared<PipeEnd>(b, false)); size_t ch = (size_t)std::max<i64>(1, p.n("wchunk")); i64 gap = p.n("wgap") * MS; auto pos = make_shared<size_t>(0); auto k = make_shared<string>(key); auto fn = make_shared<function<void()>>();
        *fn = [b, ch, gap, pos, k, fn, popen] { size_t room = b->cap - std::min(b->cap, b->size()), m = std::min({ch, k->size() - *pos, room}); b->buf.append(*k, *pos, m); *pos += m; for (auto e : b->ends) e->notify(); if (*pos >= k->size()) { sim->after(gap, [b, fn, popen] { b->writers--; *popen = false; for (auto e : b->ends) e->notify(); *fn = nullptr; }); } else { auto f2 = *fn; sim->after(std::max<i64>(gap, MS), [fn] { auto f = *fn; if (f) f(); }); } }; auto f0 = *fn; sim->at(10 * MS, [f0] { f0(); }); };
    if (prog == "d") { w.start_target(); start("d", {"-d", "-F", "-s", A(w.d_addr), "-t", A(w.t_addr), "-k", kp}); wired(); }
    else if (prog == "e") { w.ref_server(w.d_addr, key); start("e", {"-e", "-F", "-s", A(w.e_addr), "-t", A(w.d_addr), "-k", kp}); wired(); }
    else { w.ref_server(w.d_addr, key); Item c; c.kind = "spipe"; c.set("id", 1).set("n", 2500).set("d_n", 1800).set("key", kp); vector<string> ex = {"-o", "60"}; if (!pfs) ex.push_back("-f"); x = w.spipe(c, ex); q = x->spipe_proc; }
    sim->run(140 * SEC, [&] { return q->exited || t_ready >= 0; }); bool faulted = false; for (auto &f : sim->faults) if (f.used) faulted = true; faulted |= sim->fired.count("file_read_error") || sim->fired.count("eintr") || sim->fired.count("key_file_missing"); sim->faults.clear(); sim->p_eintr = 0;
    bool injected = faulted || p.n("p_eintr") || p.f("p_eintr", 0) > 0;
    if (early) w.v("the program started to serve before the end of the key stream");
    if (q->exited) { sim->probe("refused_to_start"); if (t_ready >= 0 && prog != "spipe") w.v("the program used the network although it could not read the key"); if (!q->status && !q->termsig) w.v("the program reported success although it could not read the key"); if (!injected) w.v(fmt("the program refused a readable key of %zu bytes: %s", n, q->err_out.substr(0, 150).c_str())); if (q->err_out.empty()) w.v("the program refused to start without saying why"); w.check_procs();
        for (auto &f : sim->flows) if (f->init_proc == q && f->src != "socketpair" && !f->local_unix) w.v("the program connected although it could not read the key"); return; }
    if (t_ready < 0) { w.v("the program neither started nor refused to"); return; }
    sim->run(sim->now + 500 * MS); Item c; c.kind = "conn"; c.set("id", 1).set("n", 2500).set("d_n", 1800);
    if (prog == "d") { x = w.ref_client(c, w.d_addr, key); x->ref->nopfs = !pfs; } else if (prog == "e") x = w.client(c, w.e_addr);
    sim->run(sim->now + 30 * SEC); if (!x->clean() || !x->peer || x->peer->rxn != x->sent) w.v(fmt("%s does not interoperate with a peer holding the same %zu-byte key (%s%s)", prog.c_str(), n, via.c_str(), faulted ? ", after a read failure" : "")); else sim->probe(faulted ? "right_key_after_retry" : "right_key");
    if (n > 1 && prog == "d" && q->alive) { Item e = c; e.set("id", 2); string part = key.substr(0, n - 1); App *y = w.ref_client(e, w.d_addr, part); y->evil = true; sim->run(sim->now + 8 * SEC); if (y->rxn) w.v("a peer holding only part of the key was served"); sim->probe("part_of_key_refused"); }
    w.check_procs();
}

// ---------------------------------------------------------------- P21
static const char *UGS[] = {"svc", "svc:grp", ":grp", "nobody", "nobody:nogroup", "1234", "1234:4321", ":4321", "svc:4321", "1234:grp", "svc:", ":", "", "nosuchuser", ":nosuchgroup", "svc:nosuchgroup", "nosuchuser:grp", "4294967296", ":4294967296", "-5", "svc:-5", "12x", "777", ":888", "777:888", "root", "0", "0:0", "4294967295", "a:b:c", "svc:root"};
static void gen_p21(Plan &p, Rng &r, bool th) {
    net_params(p, r, false); p.p.kv.erase("p_eintr"); p.p.set("ug", (i64)(r.chance(0.6) ? r.below(10) : r.below(sizeof UGS / sizeof *UGS))).set("enc", (i64)r.chance(0.3)); p.p.set("fork", (i64)r.chance(0.3)); p.p.set("ngroups", (i64)r.below(4)); if (r.chance(0.1)) p.p.set("fk", 1); if (r.chance(0.2)) p.p.set("euid", r.chance(0.5) ? 1234 : 123); if (r.chance(0.15)) p.p.set("egid", r.chance(0.5) ? 4321 : 321); if (r.chance(0.3)) p.p.set("D", 1);
    static const struct { const char *c; int e; } F[] = {{"getpwnam", EIO}, {"getpwnam", EINTR}, {"getpwnam", ENFILE}, {"getgrnam", EIO}, {"getgrnam", ENOMEM}, {"setuid", EPERM}, {"setuid", EAGAIN}, {"setuid", EINVAL}, {"setgid", EPERM}, {"setgid", EINVAL}, {"setgroups", EPERM}, {"setgroups", ENOMEM}, {"setgroups", EINVAL}, {"getgroups", EINVAL}, {"malloc", ENOMEM}, {"malloc", ENOMEM}};
    int nf = r.chance(0.4) ? 0 : r.chance(0.85) ? 1 : 2; for (int i = 0; i < nf; i++) { auto &f = F[r.below(sizeof F / sizeof *F)]; string c = f.c; p.add("uf").set("call", c).set("err", f.e).set("nth", c == "malloc" ? r.range(1, 60) : c == "getgroups" ? r.range(1, 2) : 1); }
    p.p.set("n", r.range(1, th ? 4 : 2));
}
static void run_p21(World &w) {
    Item &p = w.plan.p; w.strict_exit = false; string ug = UGS[p.n("ug")]; bool enc = p.n("enc"), fk = p.n("fork"); w.may_exit = {"d"}; sim->users["root"] = {0, 0}; sim->groups["root"] = 0; sim->users["777"] = {5000, 5000}; sim->groups["888"] = 6000;
    string nm = fk ? "d'" : "d"; for (auto &i : w.plan.items) if (i.kind == "uf") { Fault f; f.proc = nm; f.call = i.s("call"); f.nth = i.n("nth"); f.err = (int)i.n("err"); sim->faults.push_back(f); }
    if (enc) w.ref_server(w.t_addr, w.key); else w.start_target();
    vector<string> a = {enc ? "-e" : "-d", "-s", A(w.d_addr), "-t", A(w.t_addr), "-k", "/key", "-f", "-R", "-u", ug}; if (!fk) a.push_back("-F"); if (p.n("D")) a.push_back("-D");
    Process *l = w.spawn("d", "spiped", a); if (p.has("euid")) l->uid = l->euid = (uid_t)p.n("euid"); if (p.has("egid")) l->gid = l->egid = (gid_t)p.n("egid"); for (i64 i = 0; i < p.n("ngroups"); i++) l->groups.push_back((gid_t)(20 + i)); bool root = l->euid == 0; uid_t uid0 = l->uid; gid_t gid0 = l->gid; size_t ng0 = l->groups.size();
    // what the option asks for
    string un = ug, gn; bool hasg = false; size_t co = ug.find(':'); if (co != string::npos) { un = ug.substr(0, co); gn = ug.substr(co + 1); hasg = true; } bool ok = !(hasg && gn.empty()) && !(un.empty() && !hasg); i64 wu = -1, wg = -1;
    auto num = [&](const string &s, i64 &o) { if (s.empty()) return false; for (char ch : s) if (!isdigit((u8)ch)) return false; if (s.size() > 12) return false; o = atoll(s.c_str()); return o <= 4294967295ll; };
    if (ok && !un.empty()) { if (sim->users.count(un)) wu = sim->users[un].first; else if (!num(un, wu)) ok = false; } if (ok && hasg) { if (sim->groups.count(gn)) wg = sim->groups[gn]; else if (!num(gn, wg)) ok = false; }
    bool may = ok; if (ok && !root) { if (wg >= 0 && wg != (i64)gid0) ok = false; if (wu >= 0 && wu != (i64)uid0) ok = false; may = ok; } if (wu == 4294967295ll || wg == 4294967295ll) ok = false;
    // credentials at every use of a connection
    string bad; string *pb = &bad; u64 acc = 0; u64 *pa = &acc; auto old = sim->on_accept; sim->on_accept = [=](Process *q, SockP s) { old(q, s); ++*pa; if (!pb->empty()) return; 
        if (wu >= 0 && (q->uid != (uid_t)wu || q->euid != (uid_t)wu)) *pb = fmt("a connection was accepted with uid %d/%d instead of %lld", (int)q->uid, (int)q->euid, (long long)wu); else if (wg >= 0 && (q->gid != (gid_t)wg || q->egid != (gid_t)wg)) *pb = fmt("a connection was accepted with gid %d/%d instead of %lld", (int)q->gid, (int)q->egid, (long long)wg);
        else if (wu < 0 && (q->uid != uid0 || q->euid != uid0)) *pb = "the user id was changed although only a group was given"; else if (wg < 0 && (q->gid != gid0 || q->egid != gid0)) *pb = "the group id was changed although only a user was given";
        else if (root && !q->groups.empty() && !sim->fired.count("syscall:setgroups:1")) *pb = fmt("a connection was accepted with %zu supplementary groups left", q->groups.size()); };
    int n = (int)p.n("n", 1); for (int i = 0; i < n; i++) { i64 at = i == 0 ? 20 * MS : 1500 * MS; sim->at(at, [&w, enc, i] { auto li = sim->listeners.find(w.d_addr); if (li == sim->listeners.end() && i == 0) return; Item c; c.kind = "conn"; c.set("id", i + 1).set("n", 500).set("d_n", 500); if (enc) w.client(c, w.d_addr); else w.ref_client(c, w.d_addr, w.key); }); }
    sim->run(12 * SEC); getopt_aborts(); Process *q = fk ? child_of(l) : l; bool faulted = false, mal = false, sg = false; for (auto &f : sim->faults) if (f.used) { if (f.call == "malloc") mal = true; else if (f.call == "setgroups" && f.err == EPERM) sg = true; else if (f.call == "getgroups") sg = true; else faulted = true; }
    if (!bad.empty()) w.v(bad + fmt(" (-u %s)", ug.c_str())); if (!q) { if (!l->exited || !l->status) w.v("no daemon was started"); return; }
    if (acc) sim->probe("credentials_checked");
    bool must_fail = !ok || faulted; (void)may;
    if (must_fail) { sim->probe("failed_switch_checked"); if (acc) w.v(fmt("connections were accepted although the switch to '%s' failed", ug.c_str())); if (q->alive) w.v(fmt("the daemon keeps running although the switch to '%s' failed", ug.c_str())); else if (q->termsig || q->status == 0) w.v(fmt("the daemon ended with status %d (signal %d) when the switch to '%s' failed", q->status, q->termsig, ug.c_str())); if (!q->alive && q->err_out.empty()) w.v("the daemon gave up without saying why"); for (auto &x : w.apps) if (x->client && x->rxn) w.v("data was served although the switch failed"); }
    else if (!mal) { if (!q->alive) w.v(fmt("the daemon ended (status %d) although the switch to '%s' is possible: %s", q->status, ug.c_str(), q->err_out.substr(0, 160).c_str())); else for (auto &x : w.apps) if (x->client) { w.check_complete(x.get()); sim->probe("served_after_switch"); } if (q->alive && !acc) w.v("no connection was accepted");
        if (q->alive && root && !q->groups.empty()) { sim->probe("groups_left_with_warning"); if (q->err_out.find("group") == string::npos) w.v("supplementary groups were left behind without a warning"); } }
    if (q->exited && !q->termsig && q->status && !mal) { if (q->marks["exit_live_blocks"]) w.v(fmt("%lld memory block(s) were left behind when the daemon gave up", (long long)q->marks["exit_live_blocks"])); if (q->marks["exit_live_fds"] > 3) w.v(fmt("%lld descriptor(s) were left open when the daemon gave up", (long long)q->marks["exit_live_fds"] - 3)); }
    (void)ng0; w.check_procs();
}
extern const PropDef props6[] = {{"P19", gen_p19, run_p19}, {"P20", gen_p20, run_p20}, {"P21", gen_p21, run_p21}, {nullptr, nullptr, nullptr}};
