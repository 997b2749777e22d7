#include "world.h"
#include <errno.h>
#include <signal.h>
#include <sys/socket.h>

vector<string> splitw(const string &s, char c) { vector<string> r; string cur; for (char ch : s) { if (ch == c) { if (!cur.empty()) r.push_back(cur); cur.clear(); } else cur += ch; } if (!cur.empty()) r.push_back(cur); return r; }
string A(const string &a) { if (a[0] == '/') return a; size_t i = a.rfind(':'); if (isdigit((u8)a[0])) return "[" + a.substr(0, i) + "]" + a.substr(i); return a; }

bool g_const_content = false;
u8 content_byte(int id, u64 off) {
    if (off < 4) { u8 h[4] = {0xC1, (u8)(id >> 8), (u8)id, (u8)(0x5A ^ id ^ (id >> 8))}; return h[off]; }
    if (g_const_content) return 0x55;
    return (u8)(mix64(((u64)id << 40) ^ (off >> 3)) >> ((off & 7) * 8));
}
void fill_content(string &s, int id, u64 off, size_t n) { s.resize(n); for (size_t i = 0; i < n; i++) s[i] = (char)content_byte(id, off + i); }

// ------------------------------------------------------------------ App
void App::kick_at(i64 t) { if (t <= sim->now) { kick(); return; } App *me = this; sim->at(t, [me] { if (!me->dead) me->kick(); }); }
void App::script(const Item &i, const char *pre) {
    string p = pre; auto n = [&](const char *k, i64 d) { return i.n((p + k).c_str(), d); };
    total = (u64)n("n", 0); chunk = n("chunk", 4096); gap = n("gap", 0) * US; rdsize = n("rdsize", 65536); rdelay = n("rdelay", 0) * US; stop_at = n("stop", -1); stop_until = n("resume", 0) * MS; wait_rx = n("wait", 0);
    abort_tx = n("atx", -1); abort_rx = n("arx", -1); abort_rst = n("arst", 0); fin_mode = (int)n("fin", 1); maxpkt = n("maxpkt", 1024); fin_delay = n("findelay", 0) * MS; hold = n("hold", 0); if (chunk <= 0) chunk = 1; if (rdsize <= 0) rdsize = 1;
}
ssize_t App::raw_read(void *b, size_t n) {
    if (pout) { if (pout->size() == 0) return pout->writers > 0 ? -EAGAIN : 0; n = std::min(n, pout->size()); memcpy(b, pout->buf.data() + pout->pos, n); pout->pos += n; if (pout->pos == pout->buf.size()) { pout->buf.clear(); pout->pos = 0; } for (auto e : pout->ends) e->notify(); return (ssize_t)n; }
    return s->do_read(b, n);
}
ssize_t App::raw_write(const void *b, size_t n) {
    if (pin) { if (!out_open) return -EPIPE; if (pin->readers <= 0) return -EPIPE; size_t sp = pin->cap - std::min(pin->cap, pin->size()); if (!sp) return -EAGAIN; n = std::min(n, sp); pin->buf.append((const char *)b, n); for (auto e : pin->ends) e->notify(); return (ssize_t)n; }
    return s->do_write(b, n, 0);
}
void App::end() { if (closed) return; closed = true; t_end = sim->now; if (s) sim->nat_close(s, aborted && abort_rst); if (pin && out_open) { out_open = false; pin->writers--; for (auto e : pin->ends) e->notify(); } if (pout) { pout->readers--; for (auto e : pout->ends) e->notify(); } if (w->on_app_end) w->on_app_end(this); }
void App::got(const u8 *d, size_t n) {
    if (t_first_rx < 0) t_first_rx = sim->now;
    t_last_rx = sim->now;
    if (ignore_data) { rxn += n; return; }
    for (size_t i = 0; i < n; i++) {
        if (rxn + i < 4) {
            hdr += (char)d[i];
            if ((u8)hdr[0] == 0xC2 && w->allow_raw) { ignore_data = true; rxn += n; return; }     // a scripted peer's own bytes, tunnelled like any others
            if (hdr.size() < 4) { if ((u8)hdr[0] != 0xC1 && !bad_peer) { bad_peer = true; w->v(fmt("%s %d received bytes that no application sent", client ? "client" : "target", id)); } continue; }
            int pid = ((u8)hdr[1] << 8) | (u8)hdr[2]; auto it = w->by_id.find(pid);
            if ((u8)hdr[0] != 0xC1 || (u8)hdr[3] != (u8)(0x5A ^ pid ^ (pid >> 8)) || it == w->by_id.end()) { if (!bad_peer) { bad_peer = true; w->v(fmt("%s %d received bytes that no application sent", client ? "client" : "target", id)); } return; }
            App *p = it->second;
            if (p->client == client) { if (!bad_peer) { bad_peer = true; w->v(fmt("%s %d received data of another connection's same-side application %d (reflected)", client ? "client" : "target", id, pid)); } return; }
            if (p->evil) { bad_peer = true; w->v(fmt("%s %d received data from a peer that does not hold the key", client ? "client" : "target", id)); return; }
            if ((peer && peer != p) || (p->peer && p->peer != this)) { if (!bad_peer) { bad_peer = true; w->v(fmt("data of connection %d was delivered to %s %d, which is paired with %d", pid, client ? "client" : "target", id, peer ? peer->id : p->peer->id)); } return; }
            peer = p; p->peer = this;
            if (!client && !adopted && p->sc.kind.size()) { adopted = true; script(p->sc, "d_"); if (total < sent) total = sent; }
            continue;
        }
        if (bad_peer || !peer) break;
        if (d[i] != content_byte(peer->id, rxn + i)) { bad_peer = true; w->v(fmt("stream %d->%d: byte %llu is wrong (altered, duplicated, reordered or skipped data)", peer->id, id, (unsigned long long)(rxn + i))); break; }
    }
    rxn += n;
    if (peer && rxn > peer->sent && !bad_peer) { bad_peer = true; w->v(fmt("stream %d->%d: %llu bytes delivered, only %llu sent", peer->id, id, (unsigned long long)rxn, (unsigned long long)peer->sent)); }
}
bool App::rd() {
    bool any = false;
    for (int k = 0; k < 64; k++) {
        if (eof || closed) return any;
        if (hold) return any;
        if (stop_at >= 0 && (i64)rxn >= stop_at && sim->now < stop_until) { if (rx_at_stop < 0) { rx_at_stop = (i64)rxn; kick_at(stop_until); } return any; }
        if (sim->now < next_r) { kick_at(next_r); return any; }
        static u8 b[65536]; size_t want = std::min<size_t>((size_t)rdsize, sizeof b);
        if (stop_at >= 0 && (i64)rxn < stop_at && sim->now < stop_until && !ref) want = std::min<size_t>(want, (size_t)(stop_at - (i64)rxn));
        if (abort_rx >= 0 && !ref && (i64)rxn < abort_rx) want = std::min<size_t>(want, (size_t)(abort_rx - (i64)rxn));
        ssize_t r = raw_read(b, want);
        if (r == -EAGAIN) return any;
        if (r < 0) { err = (int)-r; broken = true; end(); return true; }
        if (r == 0) { eof = true; t_eof = sim->now; any = true; if (stop_at >= 0) stop_at = -1; return any; }
        any = true;
        if (ref) { size_t before = ref->plain.size(); ref->feed(string((char *)b, (size_t)r)); size_t m = ref->plain.size() - before; if (m) { string pl = ref->plain.substr(before); got((const u8 *)pl.data(), m); } }
        else got(b, (size_t)r);
        if (rdelay) { next_r = sim->now + rdelay; }
        if (abort_rx >= 0 && (i64)rxn >= abort_rx) { aborted = true; end(); return true; }
    }
    kick(); return any;
}
bool App::wr() {
    bool any = false;
    for (int k = 0; k < 64; k++) {
        if (closed || fin_sent) return any;
        if (ref && !wirebuf.empty()) { ssize_t r = raw_write(wirebuf.data(), wirebuf.size()); if (r == -EAGAIN) return any; if (r < 0) { err = (int)-r; broken = true; end(); return true; } wirebuf.erase(0, (size_t)r); any = true; if (!wirebuf.empty()) return any; }
        if (ref && !ref->out.empty()) { wirebuf = ref->out; ref->out.clear(); continue; }
        if (abort_tx >= 0 && (i64)sent >= abort_tx && connected) { aborted = true; end(); return true; }
        if (sent >= total) return any;
        if (ref && ref->st != 2) return any;
        if ((i64)rxn < wait_rx && !eof) return any;
        if (sim->now < next_w) { kick_at(next_w); return any; }
        size_t n = (size_t)std::min<u64>((u64)chunk, total - sent); if (abort_tx >= 0) n = std::min<size_t>(n, (size_t)(abort_tx - (i64)sent)); if (n == 0) continue;
        string d; fill_content(d, id, sent, n);
        if (ref) { sent += n; ref->send(d, (size_t)maxpkt); any = true; if (gap) next_w = sim->now + gap; continue; }
        ssize_t r = raw_write(d.data(), n);
        if (r == -EAGAIN) return any;
        if (r < 0) { err = (int)-r; broken = true; end(); return true; }
        sent += (u64)r; any = true; if (gap) next_w = sim->now + gap;
    }
    kick(); return any;
}
void App::finish() {
    if (closed) return;
    if (!fin_sent && (!ref || (ref->out.empty() && wirebuf.empty())) && (abort_tx < 0) && ((sent >= total && fin_mode == 1) || (fin_mode == 0 && eof) || (fin_mode == 2 && eof && sent >= total))) {
        if (fin_delay > 0) { i64 d = fin_delay; fin_delay = 0; fin_mode |= 0; i64 t = sim->now + d; int m = fin_mode; fin_mode = 9; App *me = this; sim->at(t, [me, m] { if (!me->closed) { me->fin_mode = m; me->kick(); } }); return; }
        fin_sent = true; if (pin) { if (out_open) { out_open = false; pin->writers--; for (auto e : pin->ends) e->notify(); } } else { int r = s->do_shutdown(SHUT_WR); if (r < 0 && r != -ENOTCONN) err = -r; }
    }
    if (ref && ref->st == 3 && !closed) { broken = true; end(); return; }
    if (eof && fin_sent) end();
}
void App::wake() {
    if (closed || failed) return;
    if (!connected) {
        if (pin) connected = true;
        else {
            if (s->st == Sock::S_CONNECTING) return;
            if (s->st != Sock::S_EST) { failed = true; err = s->so_error; t_end = sim->now; closed = true; sim->nat_close(s); if (w->on_app_end) w->on_app_end(this); return; }
            connected = true;
        }
        t_conn = sim->now;
        if (ref && !ref_started) { ref_started = true; ref->start(); }
    }
    for (int i = 0; i < 8 && !closed; i++) { bool a = rd(); if (closed) return; bool b = wr(); if (closed) return; finish(); if (!a && !b) break; }
}

// ------------------------------------------------------------------ RawPeer
void RawPeer::kick_at(i64 t) { if (t <= sim->now) { kick(); return; } auto me = this; sim->at(t, [me] { if (!me->dead) me->kick(); }); }
void RawPeer::wake() {
    if (closed) return;
    if (!connected) { if (s->st == Sock::S_CONNECTING) return; if (s->st != Sock::S_EST) { closed = true; err = s->so_error; t_end = sim->now; return; } connected = true; t_conn = sim->now; }
    if (close_at >= 0 && sim->now >= close_at) { closed = true; t_end = sim->now; sim->nat_close(s, rst_after); return; }
    if (!noread) for (;;) { u8 b[8192]; ssize_t r = s->do_read(b, sizeof b); if (r == -EAGAIN) break; if (r < 0) { err = (int)-r; closed = true; t_end = sim->now; sim->nat_close(s); return; } if (r == 0) { if (!eof) { eof = true; t_end = sim->now; } break; } rx.append((char *)b, (size_t)r); if (on_rx) on_rx(this); }
    while (pos < to_send.size()) {
        if (sim->now < next) { kick_at(next); break; }
        size_t n = std::min(frag, to_send.size() - pos); ssize_t r = s->do_write(to_send.data() + pos, n, 0);
        if (r == -EAGAIN) break; if (r < 0) { err = (int)-r; closed = true; t_end = sim->now; sim->nat_close(s); return; }
        pos += (size_t)r; if (gap) next = sim->now + gap;
    }
    if (pos >= to_send.size()) { if (close_after || rst_after) { if (close_at < 0) { closed = true; t_end = sim->now; sim->nat_close(s, rst_after); return; } } else if (fin_after) { s->do_shutdown(SHUT_WR); fin_after = false; } }
    if (eof && !closed && close_at < 0) { closed = true; sim->nat_close(s); }
}

// ------------------------------------------------------------------ the attacker in the middle
static const size_t HS = 320;     // handshake bytes in each direction
void Tamper::data(Flow *f, int dir, const string &d) {
    if (killed || cut[dir]) return;
    buf[dir] += d; flush(f, dir, false);
}
void Tamper::fin(Flow *f, int dir) { if (killed || cut[dir]) return; flush(f, dir, true);
    for (auto &op : ops) if (op.n("dir") == dir && op.s("what") == "append") { string x(PKT, 0); if (op.n("bit") & 1) { if (!hist[dir].empty()) x = hist[dir].back(); } else for (auto &c : x) c = (char)r.next(); f->emit(dir, x); sim->fire("mitm_append"); } f->emit_fin(dir); }
void Tamper::flush(Flow *f, int dir, bool final) {
    // work in units: the handshake is unit -1 (byte ops only), then packets
    for (;;) {
        string &b = buf[dir]; if (b.empty()) return;
        u64 o = off[dir];
        if (o < HS) {
            size_t n = std::min<size_t>(b.size(), HS - o); string c = b.substr(0, n); b.erase(0, n);
            for (auto &op : ops) if (op.n("dir") == dir && op.s("what") == "hsflip") { u64 p = (u64)op.n("off") % HS; if (p >= o && p < o + n) { c[p - o] ^= (char)(1 << (op.n("bit") & 7)); sim->fire("mitm_handshake_flip"); } }
            for (auto &op : ops) if (op.n("dir") == dir && op.s("what") == "hscut") { u64 p = (u64)op.n("off") % HS; if (p >= o && p < o + n) { c = c.substr(0, p - o); cut[dir] = true; sim->fire("mitm_handshake_cut"); } }
            off[dir] += n; if (!c.empty()) f->emit(dir, c); if (cut[dir]) { f->emit_fin(dir); return; } continue;
        }
        if (b.size() < PKT && !final) return;
        string pk = b.substr(0, std::min(PKT, b.size())); b.erase(0, pk.size()); size_t idx = (o - HS) / PKT; off[dir] += pk.size(); hist[dir].push_back(pk);
        string out = pk; bool kill_after = false; 
        for (auto &op : ops) {
            if (op.n("dir") != dir || (size_t)op.n("pkt") != idx) continue; string k = op.s("what"); size_t p = (size_t)op.n("off") % std::max<size_t>(1, out.size());
            if (k == "flip") { if (out.empty()) continue; out[p] ^= (char)(1 << (op.n("bit") & 7)); }
            else if (k == "set0") { for (size_t i = 0; i < out.size(); i++) out[i] = 0; }
            else if (k == "insert") { string x((size_t)op.n("len", 1), 0); for (auto &c : x) c = (char)r.next(); out.insert(p, x); }
            else if (k == "delete") { if (!out.empty()) out.erase(p, (size_t)op.n("len", 1)); }
            else if (k == "drop") out.clear();
            else if (k == "dup") out += pk;
            else if (k == "replay") { if (!hist[dir].empty()) out = hist[dir][(size_t)op.n("src") % hist[dir].size()]; }
            else if (k == "reflect") { if (!hist[1 - dir].empty()) out = hist[1 - dir][(size_t)op.n("src") % hist[1 - dir].size()]; else continue; }
            else if (k == "splice") { bool did = false; for (auto fl : w->wire) if (fl != f) { auto t = dynamic_cast<Tamper *>(fl->mitm.get()); if (t && !t->hist[dir].empty()) { out = t->hist[dir][(size_t)op.n("src") % t->hist[dir].size()]; did = true; break; } } if (!did) continue; }
            else if (k == "swap") { if (b.size() >= PKT) { string nx = b.substr(0, PKT); b.erase(0, PKT); off[dir] += PKT; hist[dir].push_back(nx); out = nx + pk; } else if (!final) { b = pk + b; off[dir] -= pk.size(); hist[dir].pop_back(); return; } else continue; }
            else if (k == "lenmac") { if (out.size() < PKT) continue; out[1024 + (p & 3)] ^= (char)(1 << (op.n("bit") & 7)); }
            else if (k == "macflip") { if (out.size() < PKT) continue; out[1028 + (p & 31)] ^= (char)(1 << (op.n("bit") & 7)); }
            else if (k == "inject") { out = string(PKT, 0); for (auto &c : out) c = (char)r.next(); out += pk; }
            else if (k == "trunc") { out = out.substr(0, p); kill_after = true; }
            else continue;
            sim->fire("mitm_" + k);
        }
        if (!out.empty()) f->emit(dir, out);
        if (kill_after) { cut[dir] = true; f->emit_fin(dir); return; }
    }
}

// ------------------------------------------------------------------ World
World::World(Plan &p) : plan(p), prop(p.prop), g(p.seed, 5) { params(); }
void World::params() {
    Item &p = plan.p; Sim &s = *sim;
    s.rs = Rng(plan.seed, 11); s.rn = Rng(plan.seed, 12); s.rf = Rng(plan.seed, 13); s.re = Rng(plan.seed, 14); s.ra = Rng(plan.seed, 15);
    s.p_short = p.f("p_short", 0); s.p_eintr = p.f("p_eintr", 0); s.p_eagain = p.f("p_eagain", 0); s.p_yield = p.f("p_yield", 0.1); s.p_spurcond = p.f("p_spur", 0); s.p_accept_abort = p.f("p_acc_abort", 0);
    s.bsd = p.n("bsd", 0); s.rst_discards = p.n("rstd", 0); s.sockbuf = (size_t)p.n("sockbuf", 65536); s.unixbuf = (size_t)p.n("unixbuf", 131072); s.pipebuf = (size_t)p.n("pipebuf", 65536);
    s.lat = p.n("lat", 100) * US; s.jit = p.n("jit", 50) * US; s.segmax = (int)p.n("segmax", 1460); s.syscall_cost = p.n("cost", 2) * US;
    s.eintr_budget = (int)p.n("eintr_budget", 200); s.max_steps = (u64)p.n("max_steps", 3000000);
    s.mono_off = p.n("mono", 5000) * SEC; s.mono_off += p.n("mono_ns", 0);
    s.fd_base = (int)p.n("fdbase"); spiped_sim_first_pnum = pnum_hook ? (u64)p.n("pnum0") : 0; if (s.fd_base) s.fire("inherited_descriptors"); if (spiped_sim_first_pnum) s.fire("large_packet_numbers");
    s.users["nobody"] = {65534, 65534}; s.users["svc"] = {123, 124}; s.groups["nogroup"] = 65534; s.groups["grp"] = 321;
    e_addr = p.s("eaddr", "10.0.0.1:8001"); d_addr = p.s("daddr", "10.0.0.2:8002"); t_addr = p.s("taddr", "10.0.0.3:8003");
    sim->mkfile("/key", key); sim->mkfile("/key2", "another secret altogether");
    g_const_content = p.n("constc", 0);
    if (p.has("eof_urandom")) s.urandom_eof = p.n("eof_urandom");
    if (p.n("re_alt")) { if (p.n("twin") < 0) s.re = Rng(plan.seed, 77); else s.urandom_flip = p.n("twin"); }
    data_prop = prop; tdef.set("n", p.n("tn", 0)).set("fin", p.n("tfin", 2)).set("chunk", p.n("tchunk", 4096));
    sim->on_flow = [this](Flow *f) { f->record = sim->record_wire; if (f->init_proc && last_acc.count(f->init_proc)) parent[f->id] = last_acc[f->init_proc]; if (f->dst == d_addr) { wire.push_back(f); f->record = sim->record_wire; if (on_wire) on_wire(f); } };
    // an outgoing attempt belongs to the connection accepted last or, after a failed attempt, to the connection of that attempt
    sim->on_sock_close = [this](Sock *s) { if (s->flow && s->side == 0 && s->flow->init_proc && !s->ever_connected) { auto i = parent.find(s->flow->id); if (i != parent.end()) last_acc[s->flow->init_proc] = i->second; } };
    sim->on_accept = [this](Process *p, SockP s) { t_accept[s->flow->id] = sim->now; last_acc[p] = s->flow->id; };
    sim->dns = [this](const string &h, Process *) {
        DnsAns a; a.delay = dns_delay.count(h) ? dns_delay[h] : 5 * MS; a.err = dns_err.count(h) ? dns_err[h] : 0; if (!a.err) { auto it = dns_tab.find(h); if (it == dns_tab.end() || it->second.empty()) a.err = -2; else a.addrs = it->second; }
        dns_log.push_back({sim->now, a.delay < 0 ? -1 : sim->now + a.delay, a.addrs, a.err}); return a; };
}
// The same command line in another form: options that must not matter here added, options reordered, arguments attached to their option, flags packed together
vector<string> World::variant(const string &prog, const vector<string> &a) {
    vector<vector<string>> o; bool plain = true; auto takes = [](const string &x) { return x.size() == 2 && strchr("stkbonpru", x[1]); };
    for (size_t i = 0; i < a.size(); i++) { if (a[i].size() < 2 || a[i][0] != '-') { plain = false; break; } if (takes(a[i])) { if (i + 1 >= a.size()) { plain = false; break; } o.push_back({a[i], a[i + 1]}); i++; } else o.push_back({a[i]}); }
    vector<string> av = {prog}; u64 st = (u64)plan.p.n("argstyle", 0);
    if (!plain || (prog != "spiped" && prog != "spipe")) { av.insert(av.end(), a.begin(), a.end()); return av; }
    auto has = [&](const char *f) { for (auto &x : o) if (x[0] == f) return true; return false; };
    vector<string> xf = flags(plan.p.s("xf")); for (size_t i = 0; i < xf.size(); i++) { bool arg = takes(xf[i]); string f = xf[i]; vector<string> g = {f}; if (arg && i + 1 < xf.size()) g.push_back(xf[++i]); if (prog == "spipe" && f != "-j") continue; if (has(f.c_str())) continue; if ((f == "-R" || f == "-r") && (has("-R") || has("-r") || plan.p.n("named"))) continue; o.push_back(g); }
    Rng r(st * 7919 + 13); if (st & 1) for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[r.below(i)]);
    string pack; for (auto &x : o) { bool shrt = x[0].size() == 2;
        if (x.size() == 1 && shrt && (st & 4)) { pack += x[0][1]; continue; }
        if (x.size() == 2 && shrt && (st & 2) && !x[1].empty()) { av.push_back((pack.empty() ? "-" : "-" + pack) + x[0].substr(1) + x[1]); pack.clear(); continue; }
        if (!pack.empty() && x.size() == 2 && shrt && (st & 8)) { av.push_back("-" + pack + x[0].substr(1)); av.push_back(x[1]); pack.clear(); continue; }
        for (auto &y : x) av.push_back(y); }
    if (!pack.empty()) av.push_back("-" + pack);
    return av;
}
vector<string> World::flags(const string &s) { return splitw(s, '_'); }
Process *World::spawn(const string &name, const string &prog, const vector<string> &a, const string &) {
    vector<string> av = variant(prog, a); args[name] = a; progs[name] = prog;
    bool sw = plan.p.n(("sw_" + name).c_str(), plan.p.n("sw", 0));
    Process *p = sim->spawn(name, prog, av, sw); proc[name] = p; return p;
}
void World::kill(const string &n, int sig) { Process *p = P(n); if (p && p->alive) { if (sig == SIGKILL) { sim->fire("process_killed"); sim->kill_proc(p, SIGKILL, "killed"); } else sim->signal_proc(p, sig); } }
Process *World::restart(const string &n) { if (alive(n)) return P(n); sim->fire("process_restart"); auto p = P(n); (void)p; // a fresh process removes stale unix sockets as an init script would
    for (auto a : args[n]) if (a[0] == '/' && sim->fs.count(a) && sim->fs[a]->is_socket) sim->fs.erase(a);
    return spawn(n, progs[n], args[n]); }
App *World::mk(int id, bool client) { auto a = make_shared<App>(); a->w = this; a->id = id; a->client = client; a->t_start = sim->now; a->react_max = plan.p.n("react", 20) * US; apps.push_back(a); sim->actors.push_back(a); by_id[id] = a.get(); (client ? clients : targets).push_back(a.get()); return a.get(); }
App *World::new_target(SockP s) {
    App *a = mk(0x4000 + next_target++, false); a->script(tdef, ""); a->s = s; s->actor = a; s->nonblock = true; a->flow_id = s->flow->id; s->label = fmt("target%d", a->id);
    if (on_target) on_target(a);
    a->kick(); return a;
}
void World::start_target(const string &addr) { string a = addr.empty() ? t_addr : addr; sim->nat_listen(a, nullptr, [this](SockP s) { new_target(s); }); target_up = true; }
void World::stop_target() { auto it = sim->listeners.find(t_addr); if (it != sim->listeners.end()) { auto s = it->second; s->refs = 0; s->on_last_close(); } target_up = false; }
App *World::client(const Item &i, const string &addr) {
    App *a = mk((int)i.n("id"), true); a->sc = i; a->script(i, ""); a->s = sim->nat_connect(addr, a); a->flow_id = a->s->flow->id; return a;
}
App *World::ref_client(const Item &i, const string &addr, const string &k) {
    App *a = mk((int)i.n("id"), true); a->sc = i; a->script(i, ""); a->ref.reset(new RefEnd(false, file_key(k), plan.seed * 1000 + i.n("id"))); a->ref->nopfs = i.n("nopfs"); a->ref->requirepfs = i.n("reqpfs"); a->s = sim->nat_connect(addr, a); a->flow_id = a->s->flow->id; return a;
}
void World::ref_server(const string &addr, const string &k, function<void(App *)> cfg) {
    string kk = k;
    sim->nat_listen(addr, nullptr, [this, kk, cfg](SockP s) { App *a = mk(0x4000 + next_target++, false); a->script(tdef, ""); a->ref.reset(new RefEnd(true, file_key(kk), plan.seed * 1000 + a->id)); a->s = s; s->actor = a; s->nonblock = true; a->flow_id = s->flow->id; if (cfg) cfg(a); a->kick(); });
}
App *World::spipe(const Item &i, const vector<string> &extra, const vector<string> &argv) {
    App *a = mk((int)i.n("id"), true); a->sc = i; a->script(i, "");
    string name = fmt("spipe%d", a->id);
    vector<string> av = {"-t", A(d_addr), "-k", i.s("key", "/key")}; av.insert(av.end(), extra.begin(), extra.end()); av = argv.empty() ? variant("spipe", av) : argv;
    Process *p = sim->spawn(name, "spipe", av, plan.p.n("sw", 0)); proc[name] = p; a->spipe_proc = p;
    auto in = make_shared<PipeBuf>(), out = make_shared<PipeBuf>(); in->cap = (size_t)i.n("incap", (i64)sim->pipebuf); out->cap = (size_t)i.n("outcap", (i64)sim->pipebuf); in->writers = 1; out->readers = 1; in->writer_actor = a; out->reader_actor = a;
    auto put = [&](int fd, FileP f) { FileP o = p->fds[fd].f; if (o) { o->refs--; } p->fds[fd].f = f; f->refs = 1; f->owners.push_back(p); };
    put(0, make_shared<PipeEnd>(in, false)); put(1, make_shared<PipeEnd>(out, true));
    a->pin = in; a->pout = out; a->kick(); return a;
}
RawPeer *World::raw(const string &addr, i64 ms, function<void(RawPeer *)> init) {
    auto r = make_shared<RawPeer>(); r->w = this; raws.push_back(r); sim->actors.push_back(r); RawPeer *p = r.get(); string ad = addr;
    at_ms(ms, [this, p, init, ad] { p->t_start = sim->now; p->s = sim->nat_connect(ad, p); if (init) init(p); p->kick(); });
    return p;
}
RawPeer *World::raw_on(SockP s, function<void(RawPeer *)> init) {
    auto r = make_shared<RawPeer>(); r->w = this; raws.push_back(r); sim->actors.push_back(r); RawPeer *p = r.get(); p->t_start = sim->now; p->s = s; s->actor = p; s->nonblock = true; if (init) init(p); p->kick(); return p;
}
void World::raw_server(const string &addr, function<void(RawPeer *, int)> init) { sim->nat_listen(addr, nullptr, [this, init](SockP s) { int k = n_raw_acc++; raw_on(s, [init, k](RawPeer *r) { init(r, k); }); }); }
Flow *World::flow_by_id(u64 id) { for (auto &f : sim->flows) if (f->id == id) return f.get(); return nullptr; }
Flow *World::child_of(u64 id) { for (auto &c : parent) if (c.second == id) return flow_by_id(c.first); return nullptr; }
App *World::target_of(Flow *wf) { for (auto &c : parent) if (c.second == wf->id) for (auto t : targets) if (t->flow_id == c.first) return t; return nullptr; }
App *World::client_of(Flow *wf) { for (auto c : clients) { if (c->flow_id == wf->id) return c; if (c->spipe_proc && wf->init_proc == c->spipe_proc) return c; auto i = parent.find(wf->id); if (i != parent.end() && i->second == c->flow_id && c->flow_id) return c; } return nullptr; }
bool World::all_over() { for (auto &a : apps) if (!a->over()) return false; return true; }
int World::active(Process *p) { int n = 0; for (auto &e : p->fds) if (e.f && e.f->sock() && e.f->sock()->side == 1 && e.f->sock()->flow && e.f->sock()->flow->acc_proc == p) n++; return n; }

void World::common_items() {
    for (auto &it : plan.items) {
        Item i = it; const string &k = i.kind;
        if (k == "kill") at_ms(i.n("at"), [this, i] { kill(i.s("who"), (int)i.n("sig", 9)); });
        else if (k == "restart") at_ms(i.n("at"), [this, i] { if (!alive(i.s("who"))) restart(i.s("who")); });
        else if (k == "pause") at_ms(i.n("at"), [this, i] { auto p = P(i.s("who")); if (p && p->alive) { p->paused_until = sim->now + i.n("for") * MS; sim->fire("process_paused"); } });
        else if (k == "fault") { Fault f; f.proc = i.s("proc", "*"); f.call = i.s("call"); f.nth = i.n("nth"); f.err = (int)i.n("err"); f.mode = i.s("mode"); f.count = i.n("count", 1); sim->faults.push_back(f); }
        else if (k == "stall") at_ms(i.n("at"), [this, i] { size_t n = 0; for (auto &f : sim->flows) { if (f->local_unix || f->src == "socketpair") continue; if (i.has("flow") && (i64)n++ != i.n("flow")) continue; int d = (int)i.n("dir"); for (int x = 0; x < 2; x++) if (d == 2 || d == x) { f->link[x].stall_until = std::max(f->link[x].stall_until, sim->now + i.n("for") * MS); } sim->fire("network_partition"); } });
        else if (k == "rst") at_ms(i.n("at"), [this, i] { size_t n = 0; for (auto &f : sim->flows) { if (f->local_unix) continue; if ((i64)n++ == i.n("flow")) { f->emit_rst(0); f->emit_rst(1); sim->fire("network_rst"); } } });
        else if (k == "vanish") at_ms(i.n("at"), [this, i] { size_t n = 0; for (auto &f : sim->flows) { if (f->local_unix) continue; if ((i64)n++ == i.n("flow")) { f->link[0].blackhole = f->link[1].blackhole = true; sim->fire("peer_vanished"); } } });
        else if (k == "clockjump") at_ms(i.n("at"), [i] { sim->real_off += i.n("by") * SEC; sim->fire("wallclock_jump"); });
        else if (k == "bh") at_ms(i.n("at"), [this, i] { if (i.s("mode") == "clear") sim->blackhole.erase(i.s("addr")); else sim->blackhole[i.s("addr")] = i.s("mode"); });
        else if (k == "target") at_ms(i.n("at"), [this, i] { if (i.n("up")) { if (!target_up) start_target(); } else { stop_target(); sim->fire("target_down"); } });
        else if (k == "entropyfail") at_ms(i.n("at"), [i] { sim->entropy_fail = true; });
        else if (k == "entropyok") at_ms(i.n("at"), [i] { sim->entropy_fail = false; });
    }
}
void World::check_procs() {
    for (auto p : sim->procs) {
        for (auto &m : p->violations) v(p->name + ": " + m);
        if (p->alive && p->blk_since >= 0) { i64 d = sim->now - std::max(p->blk_since, p->paused_until); if (d > p->stuck_for) p->stuck_for = d, p->stuck_in = p->blk_what; }
        if (p->stuck_for > 250 * MS) v(fmt("%s was stuck in %s() for %.1f s, serving nobody", p->name.c_str(), p->stuck_in.c_str(), p->stuck_for / 1e9));
        if (p->hung) { v(p->name + " hung: it spun without making a system call"); continue; }
        if (p->exited && p->termsig && p->exit_how != "killed" && p->termsig != SIGTERM) { if (p->termsig == SIGPIPE && p->prog == "spipe") continue;      // judged by P14
            if (p->exit_how.find("signal") == 0 && may_exit.count("sig:" + p->name)) continue; v(fmt("%s died: %s", p->name.c_str(), p->exit_how.c_str())); continue; }
        if (strict_exit && p->exited && !may_exit.count(p->name) && p->exit_how != "killed" && p->name.compare(0, 5, "spipe")) v(fmt("%s exited unexpectedly with status %d (%s)", p->name.c_str(), p->status, p->err_out.substr(p->err_out.size() > 200 ? p->err_out.size() - 200 : 0).c_str()));
    }
    if (sim->fatal) v("simulation made no progress within its step budget: " + sim->fatal_msg);
}
void World::check_complete(App *c) {
    string nm = fmt("connection %d", c->id);
    if (!c->clean()) { v(fmt("%s did not complete: client state connected=%d sent=%llu/%llu received=%llu eof=%d fin=%d error=%d", nm.c_str(), c->connected, (unsigned long long)c->sent, (unsigned long long)c->total, (unsigned long long)c->rxn, c->eof, c->fin_sent, c->err)); return; }
    if (c->total == 0 && c->rxn == 0) return;
    App *t = c->peer; if (!t) { v(nm + " never reached a target"); return; }
    if (!t->clean()) { v(fmt("%s: target side did not complete: sent=%llu/%llu received=%llu eof=%d fin=%d error=%d", nm.c_str(), (unsigned long long)t->sent, (unsigned long long)t->total, (unsigned long long)t->rxn, t->eof, t->fin_sent, t->err)); return; }
    if ((c->sent != c->total && c->sc.n("fin", 1) != 0) || (t->sent != t->total && c->sc.n("d_fin", 1) != 0) || c->rxn != t->sent || t->rxn != c->sent) v(fmt("%s lost data: client sent %llu, target received %llu; target sent %llu, client received %llu", nm.c_str(), (unsigned long long)c->sent, (unsigned long long)t->rxn, (unsigned long long)t->sent, (unsigned long long)c->rxn));
}
