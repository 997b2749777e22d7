// vsim: command line of the simulator.
#include "world.h"
#include <time.h>
#include <fcntl.h>
#include <unistd.h>
#include <openssl/err.h>

static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static string jesc(const string &s) { string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((u8)c < 32) o += fmt("\\u%04x", c); else o += c; } return o; }

static Result run_one(Plan &p, bool trace, vector<string> *notes) {
    Result r; const PropDef *d = find_prop(p.prop); if (!d) { r.fatal = "no such property"; return r; }
    ERR_clear_error();
    {
        Sim s; s.trace = trace;
        World w(p);
        sim->on_call = [](Process *pr, const string &c) { if (c == "poll") { u64 h = fnv(pr->prog) ^ (u64)pr->live_fds() * 1315423911u; int i = 0; for (auto &e : pr->fds) { i++; if (!e.f) continue; Sock *k = e.f->sock(); int m = k ? (int)k->st * 64 + (k->rx_fin ? 1 : 0) + (k->tx_shut ? 2 : 0) + (k->reset ? 4 : 0) + (k->rxsize() ? 8 : 0) + (k->rxsize() > 1060 ? 16 : 0) : 1000; h = mix64(h ^ (u64)(m * 131 + i)); } sim->states.insert(h); } };
        d->run(w);
        if (notes) *notes = w.notes;
        if (p.p.has("twin") && !p.p.n("re_alt")) { p.p.set("re_alt", 77); s.fire("twin_run"); }
        r.viol = s.viol; r.violated = !s.viol.empty(); r.sim_s = s.now / 1e9; r.fired = s.fired; r.probes = s.probes; r.states = std::move(s.states); r.sched_hash = s.sched_hash; r.steps = s.steps; r.stat = w.stat;
        for (auto &v : s.viol) { s.mixs(v.prop); s.mixs(v.msg); }
        r.hash = s.hash; r.trace = std::move(s.trace_out); if (s.fatal) r.fatal = s.fatal_msg;
    }
    return r;
}
// A plan with a twin is run twice: the second run differs from the first only in (part of)
// the randomness the processes read; no fresh value may be common to both.
Result run_plan(Plan &p0, bool trace) {
    Plan p = p0; vector<string> a, b; bool twin = p.p.has("twin") && !p.p.has("re_alt");
    Result r = run_one(p, trace, &a); if (!twin) return r;
    Result q = run_one(p, false, &b); set<string> sa(a.begin(), a.end()); int dup = 0; for (auto &x : b) if (sa.count(x)) dup++;
    bool differed = p.p.n("twin") < 0 || q.fired.count("entropy_byte_changed");
    r.stat["twin_values_compared"] += (double)a.size(); r.hash = mix64(r.hash ^ q.hash); r.sim_s += q.sim_s; r.steps += q.steps;
    if (differed && dup) { int k = 0, m = 0; for (auto &x : b) if (x[0] == 'n') { k++; if (sa.count(x)) m++; } r.violated = true; r.viol.push_back({p.prop, fmt("%d of %zu nonces, public values and packets are the same although the randomness read differs%s", dup, b.size(), p.p.n("twin") < 0 ? "" : fmt(" in byte %lld", (long long)p.p.n("twin")).c_str()), 0}); r.hash ^= (u64)dup; }
    return r;
}
static string vjson(const Result &r) { string o = "["; for (size_t i = 0; i < r.viol.size(); i++) o += fmt("%s{\"prop\":\"%s\",\"t\":%.6f,\"msg\":\"", i ? "," : "", r.viol[i].prop.c_str(), r.viol[i].t / 1e9) + jesc(r.viol[i].msg) + "\"}"; return o + "]"; }
static string mj(const map<string, u64> &m) { string o = "{"; bool f = true; for (auto &k : m) { o += fmt("%s\"%s\":%llu", f ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second); f = false; } return o + "}"; }
static string mjd(const map<string, double> &m) { string o = "{"; bool f = true; for (auto &k : m) { o += fmt("%s\"%s\":%.6g", f ? "" : ",", jesc(k.first).c_str(), k.second); f = false; } return o + "}"; }

static string slurp(const char *p) { FILE *f = fopen(p, "rb"); if (!f) { fprintf(stderr, "cannot read %s\n", p); exit(2); } string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }

int main(int argc, char **argv) {
    string hw, sw, tmp = "/tmp"; vector<string> a; bool thorough = false, trace = false; double tlimit = 1e9; int maxviol = 3; const char *progress = nullptr;
    for (int i = 1; i < argc; i++) {
        string s = argv[i];
        if (s == "--hw") hw = argv[++i]; else if (s == "--sw") sw = argv[++i]; else if (s == "--tmp") tmp = argv[++i]; else if (s == "--progress") progress = argv[++i]; else if (s == "--thorough") thorough = true; else if (s == "--trace") trace = true; else if (s == "--time") tlimit = atof(argv[++i]); else if (s == "--maxviol") maxviol = atoi(argv[++i]); else a.push_back(s);
    }
    if (a.empty()) { fprintf(stderr, "usage: vsim --hw node-hw.so --sw node-sw.so gen|batch|run ...\n"); return 2; }
    if (a[0] == "gen") { const PropDef *d = find_prop(a[1]); if (!d) return 2; Plan p; p.prop = a[1]; p.seed = strtoull(a[2].c_str(), 0, 10); Rng r(p.seed, fnv(a[1])); d->gen(p, r, thorough); printf("%s", p.text().c_str()); return 0; }
    if (!load_slots(hw.c_str(), sw.c_str(), 6, 4, tmp.c_str())) return 2;
    if (a[0] == "run") {
        Plan p; if (!Plan::parse(slurp(a[1].c_str()), p)) { fprintf(stderr, "bad plan\n"); return 2; }
        Result r = run_plan(p, trace);
        if (trace) printf("%s", r.trace.c_str());
        printf("{\"hash\":\"%016llx\",\"sim_s\":%.6f,\"steps\":%llu,\"fatal\":\"%s\",\"violations\":%s,\"fired\":%s,\"probes\":%s,\"stat\":%s}\n", (unsigned long long)r.hash, r.sim_s, (unsigned long long)r.steps, jesc(r.fatal).c_str(), vjson(r).c_str(), mj(r.fired).c_str(), mj(r.probes).c_str(), mjd(r.stat).c_str());
        return r.violated ? 1 : 0;
    }
    if (a[0] == "hashes") { // hashes PROP FIRST STRIDE COUNT: event-log hash of each run
        const PropDef *d = find_prop(a[1]); if (!d) return 2; u64 first = strtoull(a[2].c_str(), 0, 10), stride = strtoull(a[3].c_str(), 0, 10), count = strtoull(a[4].c_str(), 0, 10);
        for (u64 i = 0; i < count; i++) { Plan p; p.prop = a[1]; p.seed = first + i * stride; Rng r(p.seed, fnv(a[1])); d->gen(p, r, thorough); Result x = run_plan(p, false); printf("%llu %016llx\n", (unsigned long long)p.seed, (unsigned long long)x.hash); }
        return 0;
    }
    if (a[0] == "batch") { // batch PROP FIRST STRIDE COUNT
        const PropDef *d = find_prop(a[1]); if (!d) return 2; u64 first = strtoull(a[2].c_str(), 0, 10), stride = strtoull(a[3].c_str(), 0, 10), count = strtoull(a[4].c_str(), 0, 10);
        map<string, u64> fired, probes, runs_with; set<u64> states, scheds; map<string, double> stat; double t0 = wall(), sims = 0; u64 n = 0, steps = 0; int nv = 0; u64 nondet = 0, rechecked = 0; vector<u64> nontriv; string samples;
        int pfd = progress ? open(progress, O_CREAT | O_WRONLY | O_TRUNC, 0600) : -1;
        for (u64 i = 0; i < count && wall() - t0 < tlimit; i++) {
            u64 seed = first + i * stride; if (pfd >= 0) { string ps = fmt("%-22llu\n", (unsigned long long)seed); if (pwrite(pfd, ps.data(), ps.size(), 0) < 0) return 2; } Plan p; p.prop = a[1]; p.seed = seed; Rng r(seed, fnv(a[1])); d->gen(p, r, thorough);
            Result x = run_plan(p, false); n++; sims += x.sim_s; steps += x.steps;
            for (auto &k : x.fired) { fired[k.first] += k.second; runs_with[k.first]++; } for (auto &k : x.probes) probes[k.first] += k.second; for (auto &k : x.stat) stat[k.first] += k.second;
            if (states.size() < 2000000) states.insert(x.states.begin(), x.states.end()); scheds.insert(x.sched_hash);
            u64 nf = 0; for (auto &k : x.fired) if (k.first != "thread_start") nf += k.second;
            if (nf && x.steps >= 50) nontriv.push_back(x.hash);
            if (i == 1 || (i == 0 && count == 1)) samples = "{\"plan\":\"" + jesc(p.text().substr(0, 1500)) + "\"," + fmt("\"simulated_s\":%.3f,\"system_calls\":%llu,\"hash\":\"%016llx\",\"fired\":", x.sim_s, (unsigned long long)x.steps, (unsigned long long)x.hash) + mj(x.fired) + ",\"result\":" + mjd(x.stat) + "}";
            bool again = x.violated || i % 50 == 0;
            if (again) { rechecked++; Plan q; Plan::parse(p.text(), q); Result y = run_plan(q, false); if (y.hash != x.hash) { nondet++; printf("{\"nondet\":%llu,\"h1\":\"%016llx\",\"h2\":\"%016llx\"}\n", (unsigned long long)seed, (unsigned long long)x.hash, (unsigned long long)y.hash); fflush(stdout); } }
            if (x.violated) { printf("{\"seed\":%llu,\"hash\":\"%016llx\",\"violations\":%s,\"plan\":\"%s\"}\n", (unsigned long long)seed, (unsigned long long)x.hash, vjson(x).c_str(), jesc(p.text()).c_str()); fflush(stdout); if (++nv >= maxviol) break; }
        }
        printf("{\"summary\":1,\"runs\":%llu,\"sim_s\":%.3f,\"steps\":%llu,\"wall\":%.3f,\"nondet\":%llu,\"states\":%zu,\"scheds\":%zu,\"fired\":%s,\"runs_with\":%s,\"probes\":%s,\"stat\":%s,\"statehashes\":[", (unsigned long long)n, sims, (unsigned long long)steps, wall() - t0, (unsigned long long)nondet, states.size(), scheds.size(), mj(fired).c_str(), mj(runs_with).c_str(), mj(probes).c_str(), mjd(stat).c_str());
        size_t k = 0; for (u64 h : states) { if (k >= 20000) break; printf("%s%llu", k++ ? "," : "", (unsigned long long)(h >> 11)); } printf("],\"schedhashes\":["); k = 0; for (u64 h : scheds) { printf("%s%llu", k++ ? "," : "", (unsigned long long)(h >> 11)); } printf("],\"nontrivial\":["); k = 0; for (u64 h : nontriv) printf("%s%llu", k++ ? "," : "", (unsigned long long)(h >> 11)); printf("],\"rechecked\":%llu,\"samples\":[%s]}\n", (unsigned long long)rechecked, samples.c_str());
        return nv ? 1 : 0;
    }
    return 2;
}
