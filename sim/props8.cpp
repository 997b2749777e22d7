// P25: the command line decides the configuration
#include "props.h"
#include <arpa/inet.h>
#include <algorithm>

// ---------------------------------------------------------------- reference reading of a command line
static string enc_arg(const string &s) { if (s.empty()) return "%e"; string o; for (char c : s) if (isalnum((u8)c) || strchr("-./:[],_+", c)) o += c; else o += fmt("%%%02x", (u8)c); return o; }
static string dec_arg(const string &s) { if (s == "%e") return ""; string o; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else o += s[i]; return o; }
struct Cfg { int st = 0; string why; map<string, string> o; double n = 100, tmo = 5, r = 60; bool has(const char *k) const { return o.count(k) > 0; } };   // st: 0 usable, 1 refuse, 2 print the version, 3 left open by the documentation
static bool good_num(const string &s, bool integer, double &v) {      // an optional fraction and exponent for times; digits only for counts; nothing else
    size_t i = 0, d = 0; auto dig = [&] { size_t k = 0; while (i < s.size() && isdigit((u8)s[i])) i++, k++; return k; };
    if (!integer && (s == "inf" || s == "infinity")) { v = 1e300; return true; }
    d = dig(); if (!integer && i < s.size() && s[i] == '.') { i++; d += dig(); } if (!d) return false;
    if (!integer && i < s.size() && s[i] == 'e') { i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; if (!dig()) return false; }
    if (i != s.size()) return false; v = strtod(s.c_str(), nullptr); return integer ? v < 18446744073709551615.0 : v <= 1.7976931348623157e308; }
// other spellings of the addresses in use, and addresses that denote nothing
static const string LONGP = "/run/" + string(102, 'p'), TOOLONG = "/run/" + string(103, 'p');      // a socket path has at most 107 characters
static const vector<string> TSPELL = {"10.0.0.3:8003", "[FD00:0::3]:8003", "[fd00:0:0:0:0:0:0:3]:8003", LONGP.substr(0, 106) + "t"}, SSPELL = {"10.0.0.2:8002", "[0.0.0.0]:8002", "[::]:8002", "[fd00:0::2]:8002", LONGP.substr(0, 106) + "s"};
static const vector<string> NOADDR = {"[10.0.0.3]:65536", "[10.0.0.3]:8003x", "[10.0.0.3]:", "[10.0.0.3]:99999999999999999999", "[10.0.0.300]:8003", "[10.0.0.3:8003", "[fd00:::3]:8003", "[target.example]:8003", "[]:8003", "[fd00::3:8003", "[10.0.0.3]]:8003", "[fd00::12345]:80", "[10.0.0.3]:x"}, NOPORT = {"[10.0.0.3]", "[fd00::3]", "target.example", "t.sock"};
static bool one_of(const vector<string> &l, const string &x) { return std::find(l.begin(), l.end(), x) != l.end(); }
static bool no_addr(const string &x, bool bind) { return one_of(NOADDR, x) || x == TOOLONG || (!bind && one_of(NOPORT, x)); }
static Cfg parse_cmd(const string &prog, const vector<string> &a) {
    Cfg c; auto bad = [&](const string &w) { c.st = 1; c.why = w; return c; }; bool sp = prog == "spipe"; string flags = sp ? "fgj" : "deDfFgjR", args = sp ? "bkot" : "bknoprstu"; size_t i = 0;
    while (i < a.size()) {
        const string &x = a[i]; if (x.size() < 2 || x[0] != '-') break; i++;
        if (x[1] == '-') { if (x == "--") break; if (sp || x != "--syslog") return bad("unknown option"); if (c.has("syslog")) return bad("repeated option"); c.o["syslog"] = ""; continue; }
        for (size_t k = 1; k < x.size(); k++) { string o(1, x[k]);
            if (o == "v") { c.st = 2; return c; }
            if (flags.find(o) != string::npos) { if (c.has(o.c_str()) || (o == "d" && c.has("e")) || (o == "e" && c.has("d"))) return bad("repeated option"); c.o[o] = ""; continue; }
            if (args.find(o) == string::npos) return bad("unknown option");
            string v; if (k + 1 < x.size()) v = x.substr(k + 1); else if (i < a.size()) v = a[i++]; else return bad("missing argument");
            if (c.has(o.c_str())) return bad("repeated option"); c.o[o] = v; double d = 0;
            if (o == "n" || o == "o" || o == "r") { if (!good_num(v, o == "n", d)) return bad("bad number"); (o == "n" ? c.n : o == "o" ? c.tmo : c.r) = d; } break; }
    }
    if (i < a.size()) return bad("stray argument");
    if (!sp && !c.has("d") && !c.has("e")) return bad("neither -e nor -d"); if (c.has("f") && c.has("g")) return bad("-f with -g"); if (!c.has("k")) return bad("no key file");
    for (const char *k : {"s", "t", "b"}) { if (sp && *k == 's') continue; if (!c.has(k)) { if (*k != 'b') return bad("missing address"); continue; } if (c.o[k].empty() || c.o[k][0] == ':') return bad("bad address"); }
    auto in = [&](const char *k, std::initializer_list<const char *> l) { if (!c.has(k)) return; string v = c.o[k]; for (const char *pt : {":65535", ":65534", ":32768", ":1"}) { size_t n = strlen(pt); if (v[0] != '/' && *k != 'b' && v.size() > n && v.compare(v.size() - n, n, pt) == 0) { v = v.substr(0, v.size() - n) + (*k == 't' ? ":8003" : ":8002"); break; } } for (auto x : l) if (v == x) return; if (*k == 't' && one_of(TSPELL, v)) return; if (*k == 's' && one_of(SSPELL, v)) return; if (strchr("stb", *k) && no_addr(c.o[k], *k == 'b') && !c.has("D")) return; c.st = 3; };   // values this check can judge
    in("t", {"[10.0.0.3]:8003", "target.example:8003", "/run/t.sock", "[fd00::3]:8003"}); if (!sp) in("s", {"[10.0.0.2]:8002", "[10.0.0.2]:443", "self.example:8002", "/run/s.sock", "[fd00::2]:8002"}); in("b", {"[fd00::99]:0", "[fd00::99]", "[10.9.9.9]:0", "[10.9.9.9]", "[10.9.9.9]:4321", "[10.9.9.9]:65536", "[10.9.9.9", "[fd00::99", "[10.9.9.9]x", "[10.9.9]:0", "[10.9.9.9]:x"}); in("k", {"/key", "/key2", "-", "/nokey"}); in("u", {"svc", "svc:grp", ":grp", "nobody", "nosuchuser"}); in("p", {"/run/x.pid", "/var/p", "-x"});
    if (c.has("R") && c.has("r")) { if (c.r == 60 || c.r == 0) c.st = 3; else return bad("-r with -R"); }
    return c;
}

// ---------------------------------------------------------------- generated command lines
static void gen_p25(Plan &p, Rng &r, bool) {
    net_params(p, r, false); p.p.kv.erase("p_eintr"); p.p.set("argstyle", 0).set("xf", "");
    bool sp = r.chance(0.25); string prog = sp ? "spipe" : "spiped"; p.p.set("prog", prog); typedef vector<string> T; vector<T> o; auto pick = [&](vector<string> v) { return v[r.below(v.size())]; };
    string t = pick({"[10.0.0.3]:8003", "[10.0.0.3]:8003", "target.example:8003", "target.example:8003", "/run/t.sock", "[fd00::3]:8003"}), s = pick({"[10.0.0.2]:8002", "[10.0.0.2]:443", "self.example:8002", "/run/s.sock", "[fd00::2]:8002"});
    { Rng q(r.next(), 43); if (q.chance(0.2)) t = TSPELL[q.below(TSPELL.size())]; if (q.chance(0.2)) s = SSPELL[q.below(SSPELL.size())]; if (q.chance(0.05)) { string x = q.chance(0.1) ? TOOLONG : q.chance(0.3) ? NOPORT[q.below(NOPORT.size())] : NOADDR[q.below(NOADDR.size())]; (q.chance(0.5) ? t : s) = x; }
      static const char *PT[] = {":65535", ":65534", ":32768", ":1"}; auto port = [&](string &a, const char *o) { if (a[0] != '/' && a.size() > 5 && a.compare(a.size() - 5, 5, o) == 0 && q.chance(0.15)) a = a.substr(0, a.size() - 5) + PT[q.below(4)]; }; port(t, ":8003"); port(s, ":8002"); }
    o.push_back({"-t", t}); o.push_back({"-k", pick({"/key", "/key", "/key2", "-", "/nokey"})});
    if (!sp) { o.push_back({r.chance(0.5) ? "-e" : "-d"}); o.push_back({"-s", s}); if (r.chance(0.7)) o.push_back({"-F"}); if (r.chance(0.3)) o.push_back({"-D"}); if (r.chance(0.4)) o.push_back({"-n", pick({"0", "1", "2", "3", "50"})}); if (r.chance(0.3)) o.push_back({"-p", pick({"/run/x.pid", "/var/p", "-x"})}); if (r.chance(0.25)) o.push_back({"-r", pick({"1", "2.5", "7", "0", "60", "1e1", "inf"})}); else if (r.chance(0.2)) o.push_back({"-R"}); if (r.chance(0.2)) o.push_back({"--syslog"}); if (r.chance(0.3)) o.push_back({"-u", pick({"svc", "svc:grp", ":grp", "nobody", "nosuchuser"})}); }
    if (r.chance(0.35)) o.push_back({r.chance(0.6) ? "-f" : "-g"}); if (r.chance(0.35)) o.push_back({"-j"}); if (r.chance(0.35)) o.push_back({"-o", pick({"1", "2", "3.5", "8", "0", "0.5e1", "1e300"})}); if (r.chance(0.25) && t[0] != '/') o.push_back({"-b", r.chance(0.06) ? pick({"[10.9.9.9]:65536", "[10.9.9.9", "[fd00::99", "[10.9.9.9]x", "[10.9.9]:0", "[10.9.9.9]:x"}) : strchr("fF:", t[1]) ? pick({"[fd00::99]:0", "[fd00::99]"}) : pick({"[10.9.9.9]:0", "[10.9.9.9]:4321", "[10.9.9.9]"})});
    int nm = r.chance(0.45) ? (int)r.range(1, 2) : 0; bool order = true; vector<T> tail;
    for (int i = 0; i < nm; i++) switch (r.below(13)) {
        case 0: case 1: { T x = o[r.below(o.size())]; if (x.size() > 1 && r.chance(0.5)) x[1] = pick({"1", "/key", "[10.0.0.9]:1"}); o.push_back(x); break; }
        case 2: case 3: o.erase(o.begin() + (long)r.below(o.size())); break;
        case 4: o.push_back({pick({"-x", "-q", "-1", "-E", "-S", "--sys", "--syslogs", "--syslog=1", "--foreground", "--version", "-?", "-:", "-=", "--=", "--s"})}); break;
        case 5: o.push_back({"-v"}); break;
        case 6: o.push_back({pick({"-n", "-o", "-r"}), pick({"", "x", "1x", "-1", "nan", "1e400", "5 ", "1.5.5", "1,5", "--", ".", "e5", "18446744073709551616", "0x", "-f"})}); if (sp) o.back()[0] = "-o"; for (size_t k = 0; k + 1 < o.size(); k++) if (o[k][0] == o.back()[0] && r.chance(0.8)) { o.erase(o.begin() + (long)k); break; } break;
        case 7: { string w = pick({"-t", "-b", "-s"}); if (sp && w == "-s") w = "-t"; for (auto &x : o) if (x[0] == w) { x[1] = pick({"", ":8001", ":"}); w = ""; } if (!w.empty()) o.push_back({w, pick({"", ":8001", ":"})}); break; }
        case 8: tail.push_back({pick({"stray", "-", "--", "", "x=y", "/key"})}); if (r.chance(0.3)) tail.push_back({pick({"-f", "stray", "--", "-v"})}); break;
        case 9: tail.push_back({pick(sp ? vector<string>{"-t", "-k", "-o", "-b"} : vector<string>{"-t", "-k", "-o", "-b", "-n", "-p", "-r", "-s", "-u"})}); break;
        case 10: o.push_back({pick({"-f", "-g"})}); o.push_back({pick({"-f", "-g"})}); break;
        case 11: if (sp) o.push_back({pick({"-e", "-d", "-D", "-F", "-R", "-n", "-p", "-s", "-u"})}); else o.push_back({pick({"-e", "-d"})}); break;
        default: if (sp) o.push_back({"-j"}); else { o.push_back({"-R"}); o.push_back({"-r", pick({"1", "60", "59", "0", "3600"})}); } break; }
    if (order) for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[r.below(i)]); for (auto &x : tail) o.push_back(x);
    vector<string> av; string pk; auto flush = [&] { if (!pk.empty()) av.push_back("-" + pk); pk.clear(); }; int style = (int)r.below(8);
    for (auto &x : o) { bool shrt = x[0].size() == 2 && x[0][0] == '-' && x[0][1] != '-' && x[0] != "-v"; if (!shrt) { flush(); for (auto &y : x) av.push_back(y); continue; }
        if (x.size() == 1) { if ((style & 1) && &x != &o.back()) pk += x[0][1]; else { flush(); av.push_back(x[0]); } continue; }
        if ((style & 2) && !x[1].empty()) { av.push_back("-" + pk + x[0].substr(1) + x[1]); pk.clear(); } else if ((style & 4) && !pk.empty()) { av.push_back("-" + pk + x[0].substr(1)); pk.clear(); av.push_back(x[1]); } else { flush(); av.push_back(x[0]); av.push_back(x[1]); } }
    flush(); for (auto &x : av) p.add("arg").set("v", enc_arg(x));
    p.p.set("peer", (i64)(r.chance(0.6) ? 0 : r.range(1, 3))).set("nc", r.range(1, 4)); if (r.chance(0.12)) p.p.set("late", r.range(1, 4)); p.p.set("silent", (i64)r.chance(0.3)).set("watch", (i64)r.chance(0.15));
}

static string canon6(const string &a) { u8 b[16]; char o[64]; size_t e = a.find(']'); if (a[0] != '[' || e == string::npos || inet_pton(AF_INET6, a.substr(1, e - 1).c_str(), b) != 1) return a; inet_ntop(AF_INET6, b, o, sizeof o); return string("[") + o + a.substr(e); }
static string sim_addr(const string &a) { if (a[0] == '/') return a; if (a[0] == '[') { size_t e = a.find(']'); string ip = a.substr(1, e - 1); return ip.find(':') != string::npos ? canon6(a) : ip + a.substr(e + 1); } size_t c = a.rfind(':'); if (isdigit((u8)a[0])) return a; return (a.compare(0, c, "self.example") == 0 ? "10.0.0.2" : "10.0.0.3") + a.substr(c); }
static string ip_only(const string &x) { if (x[0] == '[') return x.substr(1, x.find(']') - 1); return x.substr(0, x.rfind(':')); }
static Process *fork_of(Process *p) { for (auto q : sim->procs) if (q->parent == p) return q; return nullptr; }

static void run_p25(World &w) {
    Item &p = w.plan.p; w.strict_exit = false; string prog = p.s("prog", "spiped"); bool sp = prog == "spipe"; vector<string> av; for (auto &i : w.plan.items) if (i.kind == "arg") av.push_back(dec_arg(i.s("v")));
    Cfg c = parse_cmd(prog, av); set<string> used; bool pre_exit = true; Process *l = nullptr; string cmd; for (auto &x : av) cmd += " '" + x + "'"; auto V = [&](const string &m) { w.v(m + " [" + prog + cmd + "]"); };
    { auto old = sim->on_call; sim->on_call = [&, old](Process *q, const string &k) { old(q, k); if (pre_exit) used.insert(k); }; }
    const string key2 = "another secret altogether", kfile = c.has("k") ? c.o["k"] : "", key = kfile == "/key2" ? key2 : w.key; sim->mkfile("/nothing", "");
    auto names = [&w] { w.dns_err.clear(); w.dns_tab["self.example"] = {"10.0.0.2"}; w.dns_tab["target.example"] = {"10.0.0.3"}; }; names(); i64 late = p.n("late") * SEC; if (late) { w.dns_err["self.example"] = w.dns_err["target.example"] = -3; sim->at(late, names); }
    vector<i64> lookups; { auto od = sim->dns; sim->dns = [&lookups, od](const string &h, Process *q) { if (h == "target.example") lookups.push_back(sim->now); return od(h, q); }; }
    static const vector<string> BADB = {"[10.9.9.9]:65536", "[10.9.9.9", "[fd00::99", "[10.9.9.9]x", "[10.9.9]:0", "[10.9.9.9]:x"};
    bool unusable = c.st == 0 && (no_addr(c.o["t"], false) || (!sp && no_addr(c.o["s"], false)) || (c.has("b") && one_of(BADB, c.o["b"]))); if (unusable && c.has("D")) { c.st = 3; unusable = false; }
    string T = c.st == 0 && !unusable ? sim_addr(c.o["t"]) : "10.0.0.3:8003", S = c.st == 0 && !sp && !unusable ? sim_addr(c.o["s"]) : "10.0.0.2:8002", SC = S.compare(0, 8, "0.0.0.0:") == 0 ? "10.0.0.2" + S.substr(7) : S.compare(0, 5, "[::]:") == 0 ? "[fd00::2]" + S.substr(4) : S, B = c.has("b") ? c.o["b"] : ""; bool enc = sp || c.has("e"); int peer = (int)p.n("peer"); string pkey = peer == 3 ? (key == key2 ? w.key : key2) : key; bool serve_ok = !(peer == 1 && c.has("g")) && !(peer == 2 && c.has("f")) && peer != 3;
    if (!B.empty() && c.st == 0 && !unusable && (T[0] == '/' || (T[0] == '[') != (B.compare(0, 3, "[fd") == 0))) c.st = 3;
    auto setref = [&](App *a) { if (peer == 1) a->ref->nopfs = true; if (peer == 2) a->ref->requirepfs = true; if (!serve_ok) a->evil = true; };
    w.t_addr = T; w.d_addr = sp || enc ? T : SC; w.e_addr = SC; if (enc) w.ref_server(T, pkey, setref); else w.start_target(T);
    set<string> dests; map<string, int> srcs; { auto of = sim->on_flow; sim->on_flow = [&, of](Flow *f) { of(f); if (f->init_proc && f->src != "socketpair") { dests.insert(f->dst); srcs[f->init_bound.empty() ? f->src : f->init_bound]++; } }; }
    // start it
    App *x = nullptr; auto feed = [&](Process *q) { if (kfile != "-") return; auto b = make_shared<PipeBuf>(); b->buf = w.key; b->cap = 65536; FileP f = make_shared<PipeEnd>(b, false); FileP o = q->fds[0].f; if (o) o->refs--; q->fds[0].f = f; f->refs = 1; f->owners.push_back(q); };
    vector<string> full = {prog}; full.insert(full.end(), av.begin(), av.end());
    if (sp && c.st == 0) { Item i; i.kind = "spipe"; i.set("id", 1).set("n", kfile == "-" ? 0 : 2500).set("d_n", 1800).set("findelay", 1500).set("d_findelay", 1500); x = w.spipe(i, {}, full); l = x->spipe_proc; if (kfile == "-") { x->pin->buf = w.key; x->fin_delay = 0; x->kick(); } }
    else { l = sim->spawn("d", prog, full); w.proc["d"] = l; feed(l); }
    sim->on_proc_exit = [&](Process *q) { if (q == l) pre_exit = false; };
    if (c.st == 1 || c.st == 2) {
        sim->run(20 * SEC); sim->probe(c.st == 2 ? "version_checked" : "refused: " + c.why);
        if (l->alive) { V(c.st == 2 ? "-v did not print the version and exit" : "the program runs although the command line is invalid: " + c.why); return; }
        if (l->termsig) V("the program died of a signal"); if (l->status != (c.st == 2 ? 0 : 1)) V(fmt("exit status %d on %s", l->status, c.st == 2 ? "-v" : ("an invalid command line (" + c.why + ")").c_str())); if (l->err_out.empty()) V("the program exited without a message");
        if (c.st == 2 && l->err_out.compare(0, prog.size() + 1, prog + " ")) V("-v printed something else than the version");
        for (const char *k : {"socket", "socketpair", "bind", "listen", "connect", "fork", "fopen", "open", "getaddrinfo", "setuid", "setgid", "setsid", "chdir", "unlink", "pthread_create"}) if (used.count(k)) { V(fmt("the program called %s() before refusing the command line", k)); break; }
        w.check_procs(); return; }
    if (c.st == 3) { sim->run(5 * SEC); w.may_exit.insert("d"); w.check_procs(); sim->probe("left_open"); return; }
    // a usable command line
    bool F = sp || c.has("F"), D = c.has("D"), badkey = kfile == "/nokey", baduser = c.has("u") && c.o["u"] == "nosuchuser", named = c.o["t"].compare(0, 6, "target") == 0 || (!sp && c.o["s"].compare(0, 4, "self") == 0), nodns = unusable || (late && named && !D); string pf = c.has("p") ? c.o["p"] : sp ? "" : c.o["s"] + ".pid"; bool dies = badkey || baduser || nodns;
    if (sp) sim->run(1 * SEC); else sim->run((D && late && named ? late : 0) + (D && late ? 5 : 2) * SEC);
    Process *ch = fork_of(l); if (F && ch) V("the program forked although it was told to stay in the foreground");
    if (!F) { bool fork_expected = D || !(badkey || nodns); if (l->alive) V("the launching command did not return"); else if (fork_expected && (l->status || !ch)) V(fmt("the launching command failed (status %d): %s", l->status, l->err_out.substr(0, 120).c_str())); else if (!fork_expected && (!l->status || ch)) V("the launching command reported success although it could not start"); else sim->probe("background"); if (fork_expected && ch && (!sim->fs.count(pf) || sim->fs[pf]->data != std::to_string(ch->pid))) V("the pid file " + pf + " does not hold the daemon's process id"); }
    else if (!sp && (sim->fs.count(pf) || sim->fs.count(c.o["s"] + ".pid"))) V("a pid file was written by a program in the foreground");
    if (!sp && !F && c.has("p") && sim->fs.count(c.o["s"] + ".pid")) V("a pid file was written under the default name although another was given");
    Process *q = F ? l : ch; if (!sim->viol.empty()) return;
    if (dies) { sim->probe(badkey ? "no_key_file" : baduser ? "no_such_user" : unusable ? "unusable_address" : "no_dns"); Process *z = q ? q : l; if (sp) sim->run(sim->now + 5 * SEC); if (z->alive) V("the program keeps running although it cannot serve as configured"); else if (!z->status || z->termsig) V("the program ended with success although it cannot serve as configured"); else if (z->err_out.empty() && z->syslog_out.empty()) V("the program ended without a message");
        if (baduser && !badkey && !nodns && !F && !z->alive) { bool sl = c.has("syslog"); if (sl ? (z->syslog_out.empty() || z->err_out.find("user") != string::npos) : !z->syslog_out.empty()) V("the message went to the wrong place (standard error or the system log)"); else sim->probe(sl ? "to_syslog" : "to_stderr"); }
        if (c.has("syslog") && F && !z->syslog_out.empty()) V("messages went to the system log although the program stays in the foreground"); if (!dests.empty()) V("the program connected although it cannot serve as configured"); w.check_procs(); return; }
    if (sp && named && late) { return; }
    if (!q || !q->alive) { if (!(sp && (!serve_ok || (q && kfile == "-" && q->exited && !q->status && !q->termsig)))) V(fmt("the program does not run (status %d): %s", q ? q->status : -1, q ? q->err_out.substr(0, 150).c_str() : "")); if (!sp) return; }
    // what it serves
    auto keepalive = [&] { int n = 0; for (auto &e : q->fds) { Sock *k = e.f ? e.f->sock() : nullptr; if (!k || k->st != Sock::S_EST || !k->flow || k->flow->src == "socketpair" || k->flow->local_unix) continue; auto it = k->opts.find({SOL_SOCKET, SO_KEEPALIVE}); bool on = it != k->opts.end() && it->second; n++; if (on == c.has("j")) V(c.has("j") ? "keep-alives are on although -j was given" : "keep-alives are off although -j was not given"); } if (n) sim->probe(c.has("j") ? "keepalive_off" : "keepalive_on"); };
    if (!sp) {
        int nl = 0; for (auto &e : q->fds) if (e.f && e.f->sock() && e.f->sock()->st == Sock::S_LISTEN) { nl++; string at = ""; for (auto &li : sim->listeners) if (li.second.get() == e.f.get()) at = li.first; if (at != S) V("it listens at " + at + " instead of " + S); } if (nl != 1) V(fmt("it has %d listening sockets", nl)); if (!sim->viol.empty()) return;
        if (c.has("u")) { string u = c.o["u"]; uid_t wu = u.compare(0, 3, "svc") == 0 ? 123 : u == "nobody" ? 65534 : 0; gid_t wg = u == "svc" ? 0 : u == "nobody" ? 0 : 321; (void)wg; if (q->euid != wu || q->uid != wu) V("it runs with the wrong user id"); if (u.find(':') != string::npos && q->egid != 321) V("it runs with the wrong group id"); sim->probe("credentials"); }
        int nc = (int)p.n("nc", 1); i64 t0 = sim->now; size_t acc0 = w.t_accept.size(); vector<App *> cl;
        for (int i = 0; i < nc; i++) { Item it; it.kind = "conn"; it.set("id", i + 1).set("n", 1500).set("d_n", 1200); if (serve_ok) it.set("findelay", 2500).set("d_findelay", 2500); App *y = enc ? w.client(it, SC) : w.ref_client(it, SC, pkey); if (!enc) setref(y); cl.push_back(y); }
        w.tdef.set("findelay", serve_ok ? 2500 : 0); sim->run(t0 + 1 * SEC);
        if (serve_ok) { size_t got = w.t_accept.size() - acc0, want = c.n == 0 ? (size_t)nc : (size_t)std::min<double>(nc, c.n); if (got != want) V(fmt("%zu of %d connections were accepted; the limit in force is %.0f", got, nc, c.n)); else sim->probe(want < (size_t)nc ? "limit_in_force" : "no_limit_reached"); keepalive(); }
        sim->run(t0 + (serve_ok ? 4 * 6 : 8) * SEC + (serve_ok ? 0 : 4 * (i64)(std::min(c.tmo, 20.0) * SEC)));
        for (auto y : cl) if (serve_ok) w.check_complete(y); else if (y->rxn || (y->peer && y->peer->rxn)) V(peer == 3 ? "a peer with another key was served" : peer == 1 ? "a peer without perfect forward secrecy was served although -g was given" : "a peer that requires perfect forward secrecy was served although -f was given");
        sim->probe(!serve_ok ? fmt("refused_peer_%d", peer) : enc ? "served_e" : "served_d");
        // how long it waits
        if (p.n("silent") && c.has("o") && c.tmo > 0 && c.tmo < 100 && (!enc || T[0] != '/')) { sim->blackhole[T] = "drop"; RawPeer *rp = w.raw(SC, sim->now / MS + 10, nullptr); i64 st = sim->now + 10 * MS; sim->run(st + (i64)(c.tmo * SEC) + 5 * SEC, [&] { return rp->closed; }); sim->run(sim->now + MS); double g = (rp->t_end - st) / 1e9; if (!rp->closed && rp->t_end < 0) V(fmt("a connection that stays silent is not dropped after the configured %.3f s", c.tmo)); else if (g < c.tmo - 0.002 || g > c.tmo + 0.5) V(fmt("a connection that stays silent is dropped after %.3f s instead of %.3f s", g, c.tmo)); else sim->probe("timeout_in_force"); }
        if (p.n("watch") && c.o["t"].compare(0, 6, "target") == 0 && !(c.has("r") && c.r == 0)) { double iv = c.has("R") ? 0 : c.r; sim->run(sim->now + (i64)((iv > 0 && iv < 200 ? 2.5 * iv : 150) * SEC)); size_t k0 = 0; for (size_t i = 0; i < lookups.size(); i++) if (lookups[i] <= late + (late ? 2 * SEC : SEC / 2)) k0 = i; for (size_t i = k0 + 1; i < lookups.size(); i++) { double g = (lookups[i] - lookups[i - 1]) / 1e9; if (iv == 0) { V("the target is looked up again although -R was given"); break; } if (g < iv - 0.01 || g > iv + 0.5) { V(fmt("the target is looked up again after %.3f s; the interval is %.3f s", g, iv)); break; } } if (iv > 0 && iv < 200 && lookups.size() < k0 + 3) V(fmt("the target is not looked up again; the interval is %.3f s", iv)); else sim->probe(iv ? "interval_in_force" : "no_lookups_in_force"); }
        sim->signal_proc(q, SIGTERM); sim->run(sim->now + 5 * SEC); if (q->alive) V("it did not exit after SIGTERM"); else if (q->status || q->termsig) V("it did not exit with status 0 after SIGTERM");
    } else {
        if (serve_ok && l->alive && x->peer && T[0] != '/') keepalive();
        sim->run(60 * SEC, [&] { return l->exited; }); if (l->alive) V("spipe did not end"); else if (serve_ok) { if (l->status || l->termsig) V(fmt("spipe ended with status %d: %s", l->status, l->err_out.substr(0, 120).c_str())); else if (x->rxn != 1800 && !(kfile == "-" && x->rxn == 0 && w.targets.empty())) { w.tdef.kv.size(); if (!w.targets.empty() && w.targets[0]->sent != x->rxn) V("spipe lost data"); } sim->probe("served_spipe"); if (kfile == "-") sim->probe("key_from_stdin"); }
        else { if (!l->status) V("spipe reports success although the peer had to be refused"); if (x->rxn) V("spipe delivered data of a peer that had to be refused"); sim->probe(fmt("refused_peer_%d", peer)); }
    }
    for (auto &d : dests) if (d != T) V("it connected to " + d + " instead of " + T);
    for (auto &s : srcs) { if (!B.empty() && s.first.compare(0, 1, "/") && ip_only(s.first) != ip_only(B)) V("it connected from " + s.first + " instead of " + B); else if (!B.empty()) sim->probe("bound_source"); }
    w.check_procs();
}
extern const PropDef props8[] = {{"P25", gen_p25, run_p25}, {nullptr, nullptr, nullptr}};
