// Native parties (applications, attackers) and the scenario world shared by all properties.
#pragma once
#include "core.h"
#include "ref.h"

struct World;
u8 content_byte(int id, u64 off);

// An application endpoint: client application, target application, or (with ref) a
// reference implementation of the protocol carrying an application on top.
struct App : Actor {
    World *w; int id = 0; bool client = false; SockP s; std::unique_ptr<RefEnd> ref; Item sc;
    u64 total = 0, sent = 0, rxn = 0; bool connected = false, fin_sent = false, eof = false, closed = false, failed = false, aborted = false, broken = false; int err = 0;
    App *peer = nullptr; string hdr; i64 t_start = 0, t_conn = -1, t_first_rx = -1, t_end = -1, t_eof = -1, t_last_rx = -1; bool bad_peer = false; bool adopted = false; bool evil = false;
    i64 next_w = 0, next_r = 0; u64 fuzz_left = 0; i64 chunk = 0, gap = 0, rdsize = 0, rdelay = 0, stop_at = -1, wait_rx = 0, abort_tx = -1, abort_rx = -1; i64 stop_until = 0; int fin_mode = 1; bool abort_rst = false;
    i64 maxpkt = 1024; u64 flow_id = 0; i64 fin_delay = 0; bool hold = false; string expect_fail; i64 rx_at_stop = -1;
    bool ref_started = false; string wirebuf; bool ignore_data = false; shared_ptr<PipeBuf> pin, pout; Process *spipe_proc = nullptr;   // spipe's stdin/stdout
    void script(const Item &i, const char *pre);
    void wake() override; void kick_at(i64 t);
    bool rd(); bool wr(); void finish(); void got(const u8 *d, size_t n); void end();
    bool clean() const { return eof && fin_sent && !err && !aborted && !failed; }
    bool over() const { return closed || failed; }
    ssize_t raw_read(void *b, size_t n); ssize_t raw_write(const void *b, size_t n); bool out_open = true;
};

// A scripted byte-level peer (attacker): sends fixed bytes in chosen fragments at chosen times.
struct RawPeer : Actor {
    World *w; SockP s; string to_send; size_t pos = 0; i64 gap = 0; size_t frag = 1 << 20; i64 next = 0; string rx; bool eof = false; int err = 0; bool fin_after = false, close_after = false, rst_after = false; bool connected = false, closed = false; i64 t_start = 0, t_conn = -1, t_end = -1; bool noread = false; i64 close_at = -1;
    function<void(RawPeer *)> on_rx;             // may append to to_send
    void wake() override; void kick_at(i64 t);
};

// The network attacker on one flow.
struct Tamper : Mitm {
    World *w; vector<Item> ops; string buf[2]; u64 off[2] = {0, 0}; vector<string> hist[2]; size_t nbytes[2] = {0, 0}; Rng r; bool killed = false; string out_total[2]; bool cut[2] = {false, false};
    size_t hold_from[2] = {0, 0};
    Tamper(World *w, u64 seed) : w(w), r(seed, 99) {}
    void data(Flow *, int dir, const string &d) override; void fin(Flow *, int dir) override;
    void flush(Flow *f, int dir, bool final);
};

struct World {
    Plan &plan; string prop; Rng g;
    vector<shared_ptr<App>> apps; map<int, App *> by_id; vector<App *> clients, targets;
    map<string, Process *> proc; map<string, vector<string>> args; map<string, string> progs; map<string, bool> swv;
    vector<Flow *> wire;                      // flows to the decrypting side's address, in order
    string e_addr, d_addr, t_addr; string key = "shared secret key material", ekey, dkey;
    SockP tlisten; int next_target = 0; bool target_up = false; bool strict_exit = true; set<string> may_exit;
    vector<shared_ptr<RawPeer>> raws;
    bool any_fault = false, allow_raw = false; string data_prop;
    map<Process *, u64> last_acc; map<u64, u64> parent;      // accepted flow -> flow opened on its behalf
    RawPeer *raw_on(SockP s, function<void(RawPeer *)> init); int n_raw_acc = 0;
    void raw_server(const string &addr, function<void(RawPeer *, int)> init);
    Flow *flow_by_id(u64 id); Flow *child_of(u64 id); App *target_of(Flow *wf); App *client_of(Flow *wf);
    map<u64, i64> t_accept; vector<string> notes; map<string, double> stat;
    function<void(App *)> on_target; function<void(Flow *)> on_wire; function<void(App *)> on_app_end;
    map<string, vector<string>> dns_tab; map<string, int> dns_err; map<string, i64> dns_delay; struct DnsRec { i64 t0, t1; vector<string> addrs; int err; }; vector<DnsRec> dns_log;
    Item tdef;                                // default target script
    World(Plan &p);
    void params();
    void v(const string &m) { sim->violate(prop, m); }
    Process *spawn(const string &name, const string &prog, const vector<string> &args, const string &keyfile = "");
    void kill(const string &name, int sig); Process *restart(const string &name);
    Process *P(const string &n) { auto i = proc.find(n); return i == proc.end() ? nullptr : i->second; }
    bool alive(const string &n) { auto p = P(n); return p && p->alive; }
    void start_target(const string &addr = ""); void stop_target();
    App *client(const Item &i, const string &addr); App *ref_client(const Item &i, const string &addr, const string &key);
    App *new_target(SockP s); void ref_server(const string &addr, const string &key, function<void(App *)> cfg = nullptr);
    App *spipe(const Item &i, const vector<string> &extra, const vector<string> &argv = {});
    App *mk(int id, bool client);
    void at_ms(i64 ms, function<void()> f) { sim->at(ms * MS, std::move(f)); }
    void check_procs();                       // crash / misuse / unexpected exit
    void check_complete(App *c);
    bool all_over(); int active(Process *p);
    void common_items();                      // kill, pause, fault, stall ... generic plan items
    vector<string> variant(const string &prog, const vector<string> &a);
    vector<string> flags(const string &s);
    RawPeer *raw(const string &addr, i64 at_ms, function<void(RawPeer *)> init);
};
vector<string> splitw(const string &s, char c = ' ');
string A(const string &addr);                 // simulator address -> program argument syntax

struct Result { bool violated = false; vector<Violation> viol; u64 hash = 0; double sim_s = 0; map<string, u64> fired, probes; set<u64> states; u64 sched_hash = 0; u64 steps = 0; string trace; vector<string> known; string fatal; map<string, double> stat; };
extern bool g_const_content;
typedef void (*GenFn)(Plan &, Rng &, bool thorough);
typedef void (*RunFn)(World &);
struct PropDef { const char *id; GenFn gen; RunFn run; };
const PropDef *find_prop(const string &id);
Result run_plan(Plan &p, bool trace);

void fill_content(string &s, int id, u64 off, size_t n);
