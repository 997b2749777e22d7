// Deterministic simulator core: PRNG, clock, events, fibers, processes, kernel.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <queue>
#include <unordered_map>
#include <algorithm>
#include <poll.h>
#include <sys/types.h>

typedef int64_t i64;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
using std::string; using std::vector; using std::map; using std::set; using std::deque;
using std::function; using std::shared_ptr; using std::weak_ptr; using std::make_shared;

static const i64 US = 1000, MS = 1000000, SEC = 1000000000LL;

string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- PRNG
static inline u64 mix64(u64 z) { z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1, u64 stream = 0) { s = mix64(seed + 0x9e3779b97f4a7c15ULL) ^ mix64(stream * 0xd1342543de82ef95ULL + 0x1234567); next(); }
    u64 next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return b <= a ? a : a + (i64)below((u64)(b - a + 1)); }
    bool chance(double p) { return p > 0 && (double)(next() >> 11) * 0x1.0p-53 < p; }
    double unit() { return (double)(next() >> 11) * 0x1.0p-53; }
    template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- plan
struct Item {
    string kind; map<string, string> kv;
    i64 n(const char *k, i64 d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : strtoll(i->second.c_str(), 0, 10); }
    double f(const char *k, double d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : strtod(i->second.c_str(), 0); }
    string s(const char *k, const char *d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
    bool has(const char *k) const { return kv.count(k) > 0; }
    Item &set(const char *k, i64 v) { kv[k] = std::to_string(v); return *this; }
    Item &set(const char *k, int v) { return set(k, (i64)v); }
    Item &set(const char *k, const string &v) { kv[k] = v; return *this; }
    Item &set(const char *k, const char *v) { kv[k] = v; return *this; }
    Item &setf(const char *k, double v) { kv[k] = fmt("%.6g", v); return *this; }
};
struct Plan {
    string prop; u64 seed = 0;
    Item p;                  // parameters
    vector<Item> items;      // operations and faults, each removable
    Item &add(const char *kind) { items.emplace_back(); items.back().kind = kind; return items.back(); }
    string text() const;
    static bool parse(const string &t, Plan &out);
};

// ---------------------------------------------------------------- forward
struct Sim; struct Process; struct Fiber; struct File; struct Sock; struct Flow; struct Slot; struct Actor;
extern Sim *sim;

// ---------------------------------------------------------------- fibers
struct Fiber {
    void *sp = nullptr; u8 *stack = nullptr; size_t stack_size = 0;
    Process *proc = nullptr; int tid = 0;
    enum { NEW, READY, BLOCKED, DONE } st = NEW;
    function<bool()> pred; u64 seen_epoch = ~0ull; bool timed_out = false; u64 wait_gen = 0;
    bool intr = false;             // interrupted by a signal
    int err = 0;                   // errno
    // pthread state
    void *(*start)(void *) = nullptr; void *arg = nullptr; void *ret = nullptr;
    bool joined = false, detached = false, joinable = true;
    bool cancel_req = false, cancel_disabled = false, in_syscall = false, cancelling = false;
    vector<void *> cleanup;        // registered __pthread_unwind_buf_t
    function<void()> body;
    void *asan_fake = nullptr; shared_ptr<void> keep;
    string what;                   // current blocking call
    // saved stack image (only while a forked sibling is resident)
    vector<u8> saved_stack;
};

// ---------------------------------------------------------------- files
struct File : std::enable_shared_from_this<File> {
    int refs = 0;                  // descriptors referring to this
    bool nonblock = false;
    int oflags = 0;
    vector<Process *> owners;
    u64 id;
    File();
    virtual ~File();
    virtual const char *kind() const = 0;
    virtual ssize_t do_read(void *, size_t) { return -9; }      // -errno
    virtual ssize_t do_write(const void *, size_t, int) { return -9; }
    virtual int pollmask() { return 0; }
    virtual void on_last_close() {}
    virtual Sock *sock() { return nullptr; }
    void notify();                 // state changed: wake owners
    bool would_fault_partial() { return true; }
};
typedef shared_ptr<File> FileP;

struct Inode { string path; string data; int mode = 0600; bool is_socket = false; map<size_t, int> rd_err; int nopen = 0; };
struct RegFile : File { shared_ptr<Inode> ino; size_t off = 0; bool wr = false; bool append = false;
    const char *kind() const override { return "file"; }
    ssize_t do_read(void *, size_t) override; ssize_t do_write(const void *, size_t, int) override;
    int pollmask() override { return POLLIN | POLLOUT; } };
struct URandom : File { const char *kind() const override { return "urandom"; }
    ssize_t do_read(void *, size_t) override; int pollmask() override { return POLLIN | POLLOUT; }
    ssize_t do_write(const void *, size_t n, int) override { return (ssize_t)n; } };
struct NullFile : File { const char *kind() const override { return "null"; } ssize_t do_read(void *, size_t) override { return 0; }
    ssize_t do_write(const void *, size_t n, int) override { return (ssize_t)n; } int pollmask() override { return POLLIN | POLLOUT; } };
struct ErrFile : File { const char *kind() const override { return "stderr"; } ssize_t do_write(const void *, size_t n, int) override; int pollmask() override { return POLLOUT; } };
struct PipeBuf { string buf; size_t pos = 0; size_t cap = 65536; int readers = 0, writers = 0; vector<File *> ends; Actor *reader_actor = nullptr, *writer_actor = nullptr;
    size_t size() const { return buf.size() - pos; } void kick(); };
struct PipeEnd : File { shared_ptr<PipeBuf> b; bool wr;
    PipeEnd(shared_ptr<PipeBuf> b, bool wr); ~PipeEnd();
    const char *kind() const override { return wr ? "pipe-w" : "pipe-r"; }
    ssize_t do_read(void *, size_t) override; ssize_t do_write(const void *, size_t, int) override; int pollmask() override;
    void on_last_close() override; };

struct Addr { // "unix:/path" | "ip:1.2.3.4:port"
    string s; };

struct Sock : File {
    enum St { S_NEW, S_BOUND, S_LISTEN, S_CONNECTING, S_EST, S_CLOSED } st = S_NEW;
    int domain = 0; string local, remote;
    shared_ptr<Flow> flow; int side = 0;      // side 0 = initiator
    string rx; size_t rxpos = 0; bool rx_fin = false, tx_shut = false, rx_shut = false; int so_error = 0; bool reset = false;
    bool app_closed = false;
    bool ever_connected = false;
    deque<shared_ptr<Sock>> acceptq; int backlog = 0; bool listening_closed = false;
    size_t sndcap = 65536;                     // send-direction capacity
    map<std::pair<int,int>, int> opts;
    Actor *actor = nullptr; function<void(shared_ptr<Sock>)> on_accept;   // native listener
    u64 rx_total = 0, tx_total = 0;
    Process *creator = nullptr; i64 t_created = 0; string label;
    const char *kind() const override { return domain == 1 ? "unix" : "tcp"; }
    Sock *sock() override { return this; }
    size_t rxsize() const { return rx.size() - rxpos; }
    ssize_t do_read(void *, size_t) override; ssize_t do_write(const void *, size_t, int) override; int pollmask() override;
    void on_last_close() override;
    ssize_t peek_read(void *, size_t, bool peek);
    size_t wspace();
    int do_shutdown(int how);
    void rx_append(const u8 *, size_t);
    void compact() { if (rxpos > 65536 || rxpos == rx.size()) { rx.erase(0, rxpos); rxpos = 0; } }
};
typedef shared_ptr<Sock> SockP;

// per-direction link of a flow
struct Seg { string d; int type; i64 at; size_t w = 0; };   // type 0 data, 1 FIN, 2 RST
struct Link { deque<Seg> q; bool pumping = false; i64 latency = 50 * US, jitter = 0; int segmax = 1460; i64 last = 0; size_t inflight = 0; i64 stall_until = 0; bool blackhole = false; u64 emitted = 0; bool fin_sent = false; bool dead = false; i64 bw_ns_per_byte = 0; };
struct Mitm { virtual ~Mitm() {} virtual void data(Flow *, int dir, const string &d); virtual void fin(Flow *, int dir); virtual void rst(Flow *, int dir); };
struct Flow : std::enable_shared_from_this<Flow> {
    u64 id; string src, dst; weak_ptr<Sock> end[2]; Link link[2]; shared_ptr<Mitm> mitm; bool local_unix = false;
    string sent[2];            // wire record (what the sender put on the wire), if recording
    string recvd[2];           // what was delivered
    bool record = false; i64 t_start = 0; Process *init_proc = nullptr, *acc_proc = nullptr; bool established = false; u64 gid = 0;
    bool closed_by_end[2] = {false, false}; i64 t_end[2] = {-1, -1}; bool rst_seen = false, faulted = false;      // faulted: an injected error was reported on this connection
    u64 sent_total[2] = {0, 0}, recvd_total[2] = {0, 0};
    string init_bound; string behav; u64 n_attempt = 0; int syn_drops = 0; SockP initiator_keep;
    void pump(int dir); void deliver(int dir, Seg &s);
    void write(int dir, const u8 *d, size_t n); void app_fin(int dir); void app_rst(int dir);
    void emit(int dir, const string &d);      // after any attacker: put on the wire
    void emit_fin(int dir); void emit_rst(int dir, int delay_us = -1);
};

// native (non-repo) parties
struct Actor { virtual ~Actor() {} virtual void wake() = 0; bool pending = false; i64 react_min = 0, react_max = 20 * US; u64 wake_gen = 0; bool dead = false; string name;
    void kick(); };

// ---------------------------------------------------------------- heap of a simulated process
struct HBlk { u32 size; u32 cls; u8 live; u32 site; u64 seq; };
struct Heap {
    u8 *base = nullptr; size_t used = 0, cap = 0;
    std::unordered_map<u32, HBlk> blks;             // offset -> block
    map<u32, deque<u32>> freelist;                  // class -> offsets
    deque<u32> quarantine; size_t quarantined = 0;
    u64 live_blocks = 0, live_bytes = 0, seq = 0, peak_bytes = 0;
    void reset();
    void *alloc(size_t n, u32 site, bool zero); int release(void *p, string &why); size_t usable(void *p);
    bool check_block(u32 off, const HBlk &b, string &why);
    bool check_all(string &why);
};

struct Slot { void *dl = nullptr; u8 *base = nullptr; vector<std::pair<u8 *, size_t>> segs; vector<vector<u8>> pristine; Heap heap_region; u8 *heap_base = nullptr; Process *resident = nullptr; bool sw = false; int idx = 0; bool busy = false; string path; };

struct FdEnt { FileP f; bool cloexec = false; };

struct Process {
    int pid = 0, ppid = 0; string name; int incarnation = 0; Slot *slot = nullptr; bool alive = false;
    vector<FdEnt> fds; vector<Fiber *> fibers; Fiber *mainf = nullptr;
    Heap heap; vector<string> args; string prog;
    bool exited = false; int status = -1; int termsig = 0; i64 t_exit = -1, t_start = 0; string exit_how;
    bool dirty = true;
    map<int, void *> sighand; set<int> sig_pending; set<int> sig_resethand; map<int,bool> sig_restart;
    vector<void (*)(void)> atexits; bool in_exit = false;
    uid_t uid = 0, euid = 0; gid_t gid = 0, egid = 0; vector<gid_t> groups; int sid = 0; bool setsid_done = false, dropped = false;   // dropped: changed from root to another user by itself
    string err_out, syslog_out; vector<string> warnings;
    map<string, u64> ncalls;                 // per-call counters
    vector<std::pair<string, i64>> calllog;  // (optional)
    string env_tz;
    // saved image while not resident (fork)
    bool image_saved = false; vector<vector<u8>> saved_segs; vector<u8> saved_heap;
    vector<FILE *> files; FILE *in = nullptr, *out = nullptr, *err = nullptr;
    map<FILE *, int> file_fd;
    vector<string> violations;               // memory/descriptor misuse
    function<void()> on_exit;
    map<int, bool> ever_fd; u64 fd_closed_bad = 0;
    i64 busy_until = 0; u64 steps = 0; u64 polls = 0; u64 poll_returns = 0;
    string sw; int next_tid = 1;
    Process *parent = nullptr; bool pid1 = false;
    struct Mutex { int owner = 0; }; map<void *, Mutex> mutexes;
    map<void *, vector<std::pair<int, u64>>> condq; i64 nsync = 0; u64 cond_seq = 0;   // waiters (tid, ticket)
    map<unsigned, void *> tsd; u64 n_malloc = 0; i64 bn_live = 0, bnctx_live = 0, ai_live = 0; set<void *> bn_set;
    set<void *> once_done;
    map<u64, string> closed_info;
    u64 n_accepts = 0; int max_fds = 1024, fd_base = 0;
    map<string, i64> marks;
    i64 paused_until = 0; bool hung = false;
    i64 blk_since = -1, stuck_for = 0; string blk_what, stuck_in;   // the event-loop thread waiting in something else than poll()
    string cwd; mode_t umask_ = 022;        // cwd: where it was started (relative names as they are), or what chdir() said
    int live_fds() const { int n = 0; for (auto &e : fds) if (e.f) n++; return n; }
};

// ---------------------------------------------------------------- faults
struct Fault { string proc, call; i64 nth = 0; int err = 0; string mode; bool used = false; i64 count = 1; int fd_kind = 0; };

struct Violation { string prop, msg; i64 t; };

struct Event { i64 at; u64 seq; function<void()> fn; };
struct EvCmp { bool operator()(const Event *a, const Event *b) const { return a->at != b->at ? a->at > b->at : a->seq > b->seq; } };

struct ListenSpec { SockP s; };
struct DnsAns { int err = 0; vector<string> addrs; i64 delay = 0; };

struct Sim {
    i64 now = 0, real_off = 1700000000LL * SEC, mono_off = 5000 * SEC; u64 seq = 0, epoch = 0, steps = 0, max_steps = 4000000;
    Rng rs, rn, rf, re, ra;                 // schedule, network, faults, entropy, actors
    std::priority_queue<Event *, vector<Event *>, EvCmp> q;
    vector<Process *> procs; vector<Fiber *> all_fibers; Fiber *cur = nullptr;
    u64 hash = 1469598103934665603ULL; bool trace = false; string trace_out;
    u64 sched_hash = 0;
    map<string, SockP> listeners;           // by address
    map<string, shared_ptr<Inode>> fs;
    vector<shared_ptr<Flow>> flows; bool record_wire = false;
    vector<shared_ptr<Actor>> actors;
    vector<Fault> faults;
    vector<Violation> viol;
    map<string, u64> fired, probes;          // fault kinds fired; reach probes
    set<u64> states;                         // distinct abstract states
    // parameters
    double p_short = 0, p_eintr = 0, p_eagain = 0, p_yield = 0.1, p_spurcond = 0, p_connreset_after = 0;
    i64 syscall_cost = 2 * US; bool bsd = false; bool rst_discards = false; size_t sockbuf = 65536, unixbuf = 65536, pipebuf = 65536;
    i64 lat = 100 * US, jit = 50 * US; int segmax = 1460, fd_base = 0; double p_conn_imm = 0, p_accept_abort = 0;
    function<DnsAns(const string &host, Process *)> dns;
    map<string, string> blackhole;          // address -> behaviour: "drop" | "unreach"
    function<void(Flow *)> on_flow;          // new flow initiated
    function<void(Flow *)> on_flow_est;
    function<void(Sock *)> on_sock_close;
    function<void(Process *, SockP)> on_accept;
    function<void(Process *, const string &call)> on_call;
    function<void(Process *)> on_proc_exit;
    bool fatal = false; string fatal_msg; bool finished = false;
    i64 t_limit = 0; u64 next_id = 1; int next_pid = 1000;
    bool entropy_fail = false; i64 urandom_flip = -2, urandom_eof = -1; int eintr_budget = 200;
    bool heap_fail_random = false;
    set<string> swap_names;
    string cur_fault_desc;
    size_t inode_seq = 0;
    u64 n_preempt = 0, n_switch = 0;
    map<string, int> bind_err; map<string, std::pair<uid_t,gid_t>> users; map<string, gid_t> groups;

    Sim(); ~Sim();
    void at(i64 t, function<void()> f); void after(i64 d, function<void()> f) { at(now + d, std::move(f)); }
    void log(const char *f, ...) __attribute__((format(printf, 2, 3)));
    void violate(const string &prop, const string &msg);
    void mix(u64 v) { hash = (hash ^ v) * 1099511628211ULL; hash ^= hash >> 29; }
    void mixs(const string &s) { for (char c : s) { hash = (hash ^ (u8)c) * 1099511628211ULL; } }
    Process *spawn(const string &name, const string &prog, vector<string> args, bool sw = false);
    void kill_proc(Process *p, int sig, const string &how);
    void signal_proc(Process *p, int sig);
    void run(i64 until, function<bool()> stop = nullptr);
    void probe(const string &s) { probes[s]++; }
    void fire(const string &s) { fired[s]++; }
    void end_proc(Process *p, int status, int sig, const string &how);
    shared_ptr<Inode> mkfile(const string &path, const string &data) { auto i = make_shared<Inode>(); i->path = path; i->data = data; fs[path] = i; return i; }
    // native sockets
    SockP nat_listen(const string &addr, Actor *a, function<void(SockP)> on_accept);
    SockP nat_connect(const string &addr, Actor *a, const string &local = "");
    void nat_close(SockP s, bool rst = false);
    SockP mksock(int domain);
    void begin_connect(SockP s, const string &addr);
    Fault *fault_hit(Process *p, const char *call, u64 n);
};

// scheduler entry points used by the shim
Fiber *cur_fiber(); Process *cur_proc();
void sim_yield(); void sim_relax();                                       // maybe let others run
bool sim_block(const char *what, function<bool()> pred, i64 deadline, bool interruptible); // true: pred holds; false: timed out or interrupted (cur->intr)
Fault *sim_step(const char *call);                        // account one system call, preempt, deliver signals, inject
[[noreturn]] void fiber_exit(void *ret);
[[noreturn]] void proc_exit_now(int status, int sig, const string &how);
Fiber *make_fiber(Process *p, function<void()> body);
void wake_all(Process *p);
void close_all_fds(Process *p);
int fd_alloc(Process *p, FileP f, int minfd = 0);
int fd_close(Process *p, int fd);
FileP fd_get(int fd);
bool run_signals();                                     // run pending handlers in current fiber
bool load_slots(const char *so_hw, const char *so_sw, int n_hw, int n_sw, const char *tmpdir);
void image_in(Process *p);
Process *do_fork(Process *p, Fiber *f);
extern vector<Slot *> slots;
string flow_ip(const string &addr);
u64 fnv(const string &s);
