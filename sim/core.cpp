#include "core.h"
#include <sys/mman.h>
#include <dlfcn.h>
#include <link.h>
#include <elf.h>
#include <errno.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#include <sys/socket.h>

Sim *sim = nullptr;
vector<Slot *> slots;

string fmt(const char *f, ...) {
    char b[2048]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
    return string(b, n < 0 ? 0 : std::min<size_t>(n, sizeof b - 1));
}
u64 fnv(const string &s) { u64 h = 1469598103934665603ULL; for (char c : s) h = (h ^ (u8)c) * 1099511628211ULL; return h; }

// ------------------------------------------------------------------ plan text
string Plan::text() const {
    string o = "plan " + prop + " seed=" + std::to_string(seed) + "\n";
    o += "param"; for (auto &k : p.kv) o += " " + k.first + "=" + k.second; o += "\n";
    for (auto &i : items) { o += i.kind; for (auto &k : i.kv) o += " " + k.first + "=" + k.second; o += "\n"; }
    return o;
}
static vector<string> split(const string &s, char c) { vector<string> r; string cur; for (char ch : s) { if (ch == c) { if (!cur.empty()) r.push_back(cur); cur.clear(); } else cur += ch; } if (!cur.empty()) r.push_back(cur); return r; }
bool Plan::parse(const string &t, Plan &o) {
    o = Plan();
    for (auto &l : split(t, '\n')) {
        if (l[0] == '#') continue;
        auto w = split(l, ' '); if (w.empty()) continue;
        Item it; it.kind = w[0];
        for (size_t i = 1; i < w.size(); i++) { auto e = w[i].find('='); if (e == string::npos) { if (w[0] == "plan" && i == 1) o.prop = w[i]; continue; } it.kv[w[i].substr(0, e)] = w[i].substr(e + 1); }
        if (w[0] == "plan") o.seed = strtoull(it.kv["seed"].c_str(), 0, 10);
        else if (w[0] == "param") { o.p = it; }
        else o.items.push_back(it);
    }
    return !o.prop.empty();
}

// ------------------------------------------------------------------ context switch
extern "C" {
int ctx_switch(void **save_sp, void *new_sp);
int ctx_fork(void **save_sp, void *arg);
void ctx_fork_copy(void *arg);
}
__asm__(R"(
.text
.globl ctx_switch
.type ctx_switch,@function
ctx_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    movl $1, %eax
    ret
.size ctx_switch,.-ctx_switch
.globl ctx_fork
.type ctx_fork,@function
ctx_fork:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rdi
    subq $8, %rsp
    call ctx_fork_copy
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    xorl %eax, %eax
    ret
.size ctx_fork,.-ctx_fork
)");

static void *sched_sp;
static sigjmp_buf crash_jmp;
static const size_t STACK = 256 * 1024;
static vector<u8 *> stack_pool;

#if defined(__SANITIZE_ADDRESS__)
#define ASAN 1
extern "C" { void __sanitizer_start_switch_fiber(void **, const void *, size_t); void __sanitizer_finish_switch_fiber(void *, const void **, size_t *);
void __asan_poison_memory_region(void const volatile *, size_t); void __asan_unpoison_memory_region(void const volatile *, size_t); }
static const void *sched_stack; static size_t sched_stack_size; static void *sched_fake;
#else
#define ASAN 0
#endif

static u8 *stack_get() {
    if (!stack_pool.empty()) { u8 *s = stack_pool.back(); stack_pool.pop_back(); return s; }
    u8 *s = (u8 *)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (s == MAP_FAILED) abort();
    mprotect(s, 4096, PROT_NONE);
    return s + 4096;
}

Fiber *cur_fiber() { return sim ? sim->cur : nullptr; }
Process *cur_proc() { return sim && sim->cur ? sim->cur->proc : nullptr; }

static void fiber_main() {
#if ASAN
    __sanitizer_finish_switch_fiber(nullptr, &sched_stack, &sched_stack_size);
#endif
    Fiber *f = sim->cur;
    f->body();
    fiber_exit(nullptr);
}
Fiber *make_fiber(Process *p, function<void()> body) {
    Fiber *f = new Fiber; f->proc = p; f->body = std::move(body); f->tid = p->next_tid++;
    f->stack = stack_get(); f->stack_size = STACK;
    u64 *sp = (u64 *)(f->stack + STACK);
    *--sp = 0;                                 // entry wants rsp = 8 mod 16
    *--sp = (u64)fiber_main; for (int i = 0; i < 6; i++) *--sp = 0;
    f->sp = sp; f->st = Fiber::READY;
    p->fibers.push_back(f); sim->all_fibers.push_back(f);
    return f;
}
static void to_sched() {
    Fiber *f = sim->cur;
    f->err = errno;
#if ASAN
    __sanitizer_start_switch_fiber(f->st == Fiber::DONE ? nullptr : &f->asan_fake, sched_stack, sched_stack_size);
#endif
    ctx_switch(&f->sp, sched_sp);
    errno = sim->cur->err;
#if ASAN
    __sanitizer_finish_switch_fiber(f->asan_fake, &sched_stack, &sched_stack_size);
#endif
}
static void switch_in(Fiber *f) {
    sim->cur = f;
#if ASAN
    __sanitizer_start_switch_fiber(&sched_fake, f->stack, f->stack_size);
#endif
    ctx_switch(&sched_sp, f->sp);
#if ASAN
    __sanitizer_finish_switch_fiber(sched_fake, nullptr, nullptr);
#endif
    sim->cur = nullptr;
}
void fiber_exit(void *ret) {
    Fiber *f = sim->cur; f->ret = ret; f->st = Fiber::DONE; f->proc->dirty = true;
    if (f == f->proc->mainf) { // main thread ended without exit(): process lives on in theory; treat as exit(0) once all end
    }
    to_sched();
    abort();
}

// ------------------------------------------------------------------ images
static void raw_copy(void *d, const void *s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); }
static void image_out(Process *p) {
    Slot *s = p->slot;
    p->saved_segs.resize(s->segs.size());
    for (size_t i = 0; i < s->segs.size(); i++) { p->saved_segs[i].resize(s->segs[i].second); raw_copy(p->saved_segs[i].data(), s->segs[i].first, s->segs[i].second); }
    p->saved_heap.resize(p->heap.used); raw_copy(p->saved_heap.data(), p->heap.base, p->heap.used);
    for (auto f : p->fibers) if (f->st != Fiber::DONE) { u8 *sp = (u8 *)f->sp; size_t n = f->stack + f->stack_size - sp; f->saved_stack.resize(n); raw_copy(f->saved_stack.data(), sp, n); }
    p->image_saved = true;
}
void image_in(Process *p) {
    Slot *s = p->slot;
    if (s->resident == p) return;
    if (s->resident && s->resident->alive) image_out(s->resident);
    if (p->image_saved) {
        for (size_t i = 0; i < s->segs.size(); i++) raw_copy(s->segs[i].first, p->saved_segs[i].data(), s->segs[i].second);
        raw_copy(p->heap.base, p->saved_heap.data(), p->saved_heap.size());
        for (auto f : p->fibers) if (f->st != Fiber::DONE && !f->saved_stack.empty()) { raw_copy(f->sp, f->saved_stack.data(), f->saved_stack.size()); f->saved_stack.clear(); }
        p->image_saved = false;
    }
    s->resident = p;
}
struct ForkArg { Process *c; Fiber *fc, *f; };
void ctx_fork_copy(void *a_) {
    ForkArg *a = (ForkArg *)a_;
    Process *c = a->c; Slot *s = c->slot;
    c->saved_segs.resize(s->segs.size());
    for (size_t i = 0; i < s->segs.size(); i++) { c->saved_segs[i].resize(s->segs[i].second); raw_copy(c->saved_segs[i].data(), s->segs[i].first, s->segs[i].second); }
    c->saved_heap.resize(c->heap.used); raw_copy(c->saved_heap.data(), c->heap.base, c->heap.used);
    u8 *sp = (u8 *)a->fc->sp; size_t n = a->f->stack + a->f->stack_size - sp;
    a->fc->saved_stack.resize(n); raw_copy(a->fc->saved_stack.data(), sp, n);
    c->image_saved = true;
}
static Process *fork_setup(Process *p, Fiber *f, Fiber **fcp) {
    Process *c = new Process(*p);
    c->pid = sim->next_pid++; c->ppid = p->pid; c->parent = p; c->fibers.clear(); c->files.clear(); c->file_fd.clear();
    c->violations.clear(); c->ncalls.clear(); c->name = p->name + "'"; c->exited = false; c->sig_pending.clear(); c->image_saved = false; c->saved_segs.clear(); c->saved_heap.clear();
    c->err_out.clear(); c->syslog_out.clear(); c->on_exit = nullptr; c->steps = 0; c->t_start = sim->now; c->marks.clear();
    for (auto &e : c->fds) if (e.f) { e.f->refs++; e.f->owners.push_back(c); }
    c->in = p->in; c->out = p->out; c->err = p->err;   // unbuffered, routed by current process
    Fiber *fc = new Fiber(*f);
    fc->proc = c; fc->st = Fiber::READY; fc->pred = nullptr; fc->tid = 1; fc->body = nullptr; fc->saved_stack.clear(); fc->cleanup = f->cleanup;
    c->fibers.push_back(fc); c->mainf = fc; c->next_tid = 2;
    sim->all_fibers.push_back(fc); sim->procs.push_back(c);
    *fcp = fc;
    return c;
}
// Returns child to the parent, nullptr to the child.
Process *do_fork(Process *p, Fiber *f) {
    ForkArg a; a.f = f;
    a.c = fork_setup(p, f, &a.fc);
    int r = ctx_fork(&a.fc->sp, &a);
    if (r) return nullptr;
    return a.c;
}

static int collect(struct dl_phdr_info *info, size_t, void *data) {
    Slot *s = (Slot *)data;
    if ((u8 *)info->dlpi_addr != s->base) return 0;
    for (int i = 0; i < info->dlpi_phnum; i++) { auto &ph = info->dlpi_phdr[i]; if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) s->segs.push_back({s->base + ph.p_vaddr, ph.p_memsz}); }
    return 1;
}
extern bool pnum_hook;
bool load_slots(const char *so_hw, const char *so_sw, int n_hw, int n_sw, const char *tmpdir) {
    for (const char *so : {so_hw, so_sw}) if (!access((string(so) + ".nohook").c_str(), F_OK)) pnum_hook = false;
    for (int i = 0; i < n_hw + n_sw; i++) {
        bool sw = i >= n_hw; string dst = fmt("%s/n%d-%d.so", tmpdir, (int)getpid(), i);
        {   FILE *a = fopen(sw ? so_sw : so_hw, "rb"), *b = fopen(dst.c_str(), "wb"); if (!a || !b) { fprintf(stderr, "cannot copy node image\n"); return false; }
            char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, a)) > 0) fwrite(buf, 1, n, b); fclose(a); fclose(b); }
        Slot *s = new Slot; s->idx = i; s->sw = sw; s->path = dst;
        s->dl = dlopen(dst.c_str(), RTLD_NOW | RTLD_LOCAL); unlink(dst.c_str());
        if (!s->dl) { fprintf(stderr, "dlopen: %s\n", dlerror()); return false; }
        struct link_map *lm; dlinfo(s->dl, RTLD_DI_LINKMAP, &lm); s->base = (u8 *)lm->l_addr;
        dl_iterate_phdr(collect, s);
        for (auto &g : s->segs) { s->pristine.emplace_back(g.second); raw_copy(s->pristine.back().data(), g.first, g.second); }
        s->heap_base = (u8 *)mmap((void *)(0x200000000000ULL + (u64)i * 0x10000000ULL), 0x8000000, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (s->heap_base == MAP_FAILED) { fprintf(stderr, "heap map failed\n"); return false; }
        slots.push_back(s);
    }
    return true;
}

// ------------------------------------------------------------------ heap
static u32 cls_of(size_t n) { if (n <= 4096) return (u32)((n + 31) / 32 * 32); u32 c = 8192; while (c < n) c *= 2; return c; }
void Heap::reset() { used = 0; blks.clear(); freelist.clear(); quarantine.clear(); quarantined = 0; live_blocks = live_bytes = seq = peak_bytes = 0; cap = 0x8000000; }
void *Heap::alloc(size_t n, u32 site, bool zero) {
    if (n > 0x4000000) return nullptr;
    u32 c = cls_of(n ? n : 1); u32 off;
    auto &fl = freelist[c];
    if (!fl.empty()) { off = fl.front(); fl.pop_front(); }
    else { if (used + c + 48 > cap) return nullptr; off = (u32)used + 16; used += c + 48; used = (used + 15) & ~15ull; }
#if ASAN
    __asan_unpoison_memory_region(base + off - 16, c + 48);
#endif
    memset(base + off - 16, 0xA5, 16); memset(base + off, zero ? 0 : 0xCE, n); memset(base + off + n, 0xA5, (c - n) + 16);
#if ASAN
    __asan_poison_memory_region(base + off - 16, 16); __asan_poison_memory_region(base + off + ((n + 7) & ~7ull), c + 16 - ((n + 7) & ~7ull));
#endif
    blks[off] = HBlk{(u32)n, c, 1, site, seq++};
    live_blocks++; live_bytes += n; peak_bytes = std::max(peak_bytes, live_bytes);
    return base + off;
}
bool Heap::check_block(u32 off, const HBlk &b, string &why) {
#if ASAN
    __asan_unpoison_memory_region(base + off - 16, b.cls + 48);
#endif
    bool ok = true;
    for (int i = 0; i < 16; i++) if (base[off - 16 + i] != 0xA5) { ok = false; why = fmt("heap underrun before a %u-byte block", b.size); }
    for (u32 i = 0; i < (b.cls - b.size) + 16 && ok; i++) if (base[off + b.size + i] != 0xA5) { ok = false; why = fmt("heap overrun after a %u-byte block (offset +%u)", b.size, i); }
    return ok;
}
int Heap::release(void *p, string &why) {
    u64 d = (u8 *)p - base;
    if ((u8 *)p < base || d >= used) { why = "free() of a pointer that is not a heap block"; return -1; }
    auto it = blks.find((u32)d);
    if (it == blks.end()) { why = "free() of a pointer inside the heap that is not a block"; return -1; }
    HBlk &b = it->second;
    if (!b.live) { why = fmt("double free of a %u-byte block", b.size); return -1; }
    int rc = 0;
    if (!check_block((u32)d, b, why)) rc = -1;
    b.live = 0; live_blocks--; live_bytes -= b.size;
    memset(base + d, 0xDB, b.cls);
#if ASAN
    __asan_poison_memory_region(base + d - 16, b.cls + 32);
#endif
    quarantine.push_back((u32)d); quarantined += b.cls;
    while (quarantined > (1u << 20)) {
        u32 o = quarantine.front(); quarantine.pop_front(); auto &q = blks[o]; quarantined -= q.cls;
#if ASAN
        __asan_unpoison_memory_region(base + o - 16, q.cls + 32);
#endif
        for (u32 i = 0; i < q.cls; i++) if (base[o + i] != 0xDB) { why = fmt("write to freed memory (%u-byte block, offset %u)", q.size, i); rc = -1; break; }
        freelist[q.cls].push_back(o); blks.erase(o);
    }
    return rc;
}
size_t Heap::usable(void *p) { auto it = blks.find((u32)((u8 *)p - base)); return it == blks.end() ? 0 : it->second.size; }
bool Heap::check_all(string &why) {
#if ASAN
    return true;
#endif
    vector<u32> offs; for (auto &b : blks) offs.push_back(b.first); std::sort(offs.begin(), offs.end());
    for (u32 o : offs) { auto &b = blks[o]; if (b.live) { if (!check_block(o, b, why)) return false; } else for (u32 i = 0; i < b.cls; i++) if (base[o + i] != 0xDB) { why = fmt("write to freed memory (%u-byte block, offset %u)", b.size, i); return false; } }
    return true;
}

// ------------------------------------------------------------------ sim
static int crash_sig = 0;
static void crash_handler(int sig, siginfo_t *, void *) {
    if (!sim || !sim->cur) { // simulator bug
        const char m[] = "vsim: crash outside simulated code\n"; (void)!write(2, m, sizeof m - 1); signal(sig, SIG_DFL); raise(sig); return;
    }
    crash_sig = sig; siglongjmp(crash_jmp, 1);
}
static void install_handlers() {
    static bool done = false; if (done) return; done = true;
    static u8 alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM}; for (int s : sigs) {
#if ASAN
        if (s == SIGSEGV || s == SIGBUS) { sigaction(s, &sa, nullptr); continue; }
#endif
        sigaction(s, &sa, nullptr); }
}

Sim::Sim() { install_handlers(); sim = this; }
Sim::~Sim() {
    // drop everything; order matters little, nothing runs any more
    sim = this;
    for (auto p : procs) { p->alive = false; for (auto f : p->files) fclose(f); p->files.clear(); }
    for (auto f : flows) { f->mitm.reset(); }
    for (auto p : procs) { for (auto &e : p->fds) e.f.reset(); p->on_exit = nullptr; }
    std::set<u8 *> st;
    for (auto f : all_fibers) { if (f->stack) st.insert(f->stack); }
    for (auto s : st) { stack_pool.push_back(s); }
    for (auto f : all_fibers) delete f;
    for (auto p : procs) delete p;
    while (!q.empty()) { delete q.top(); q.pop(); }
    for (auto &l : listeners) { l.second->on_accept = nullptr; l.second->acceptq.clear(); }
    listeners.clear(); actors.clear(); flows.clear();
    for (auto s : slots) { s->resident = nullptr; s->busy = false; }
    sim = nullptr;
}
void Sim::at(i64 t, function<void()> f) { if (t < now) t = now; q.push(new Event{t, seq++, std::move(f)}); }
void Sim::log(const char *f, ...) {
    if (!trace) return;
    char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    trace_out += fmt("%14.6f ", now / 1e9) + b + "\n";
}
void Sim::violate(const string &prop, const string &msg) {
    for (auto &v : viol) if (v.prop == prop && v.msg == msg) return;
    if (viol.size() < 50) viol.push_back({prop, msg, now});
    log("VIOLATION %s %s", prop.c_str(), msg.c_str());
}

void wake_all(Process *p) { p->dirty = true; }

Process *Sim::spawn(const string &name, const string &prog, vector<string> args, bool sw) {
    Slot *s = nullptr;
    for (auto c : slots) if (!c->busy && c->sw == sw) { s = c; break; }
    if (!s) for (auto c : slots) if (!c->busy) { s = c; break; }
    if (!s) { fprintf(stderr, "vsim: no free slot for %s\n", name.c_str()); abort(); }
    s->busy = true;
    Process *p = new Process; p->pid = next_pid++; p->ppid = 1; p->name = name; p->slot = s; p->prog = prog; p->args = args; p->t_start = now; p->alive = true; p->sw = s->sw ? "sw" : "hw";
    for (auto o : procs) if (o->name == name) p->incarnation++;
    for (size_t i = 0; i < s->segs.size(); i++) raw_copy(s->segs[i].first, s->pristine[i].data(), s->segs[i].second);
    s->resident = p;
    p->heap.base = s->heap_base; p->heap.reset();
    procs.push_back(p);
    void *entry = dlsym(s->dl, (prog + "_main").c_str());
    if (!entry) { fprintf(stderr, "vsim: no entry %s\n", prog.c_str()); abort(); }
    extern void setup_stdio(Process *); setup_stdio(p); if (prog == "spiped" || prog == "spipe") p->fd_base = fd_base, p->max_fds += fd_base;
    log("spawn %s[%d] %s", name.c_str(), p->pid, prog.c_str());
    p->mainf = make_fiber(p, [entry, p] {
        // argv lives on the fiber stack / C++ heap; the node may modify pointers only
        vector<char *> *av = new vector<char *>;
        for (auto &a : p->args) av->push_back(strdup(a.c_str()));
        av->push_back(nullptr);
        int rc = ((int (*)(int, char **))entry)((int)av->size() - 1, av->data());
        extern void proc_exit_normal(int); proc_exit_normal(rc);
    });
    return p;
}

extern void forget_files(Process *p);
void close_all_fds(Process *p) {
    for (size_t i = 0; i < p->fds.size(); i++) if (p->fds[i].f) {
        FileP f = p->fds[i].f; p->fds[i].f.reset();
        auto &o = f->owners; for (size_t k = 0; k < o.size(); k++) if (o[k] == p) { o.erase(o.begin() + k); break; }
        if (--f->refs == 0) f->on_last_close();
    }
}
void Sim::end_proc(Process *p, int status, int sig, const string &how) {
    if (p->exited) return;
    p->exited = true; p->status = status; p->termsig = sig; p->t_exit = now; p->exit_how = how;
    string why;
    if (p->slot->resident == p && !sig && !p->heap.check_all(why)) p->violations.push_back(why);
    p->alive = false;
    log("exit %s[%d] status=%d sig=%d %s", p->name.c_str(), p->pid, status, sig, how.c_str());
    mix(fnv(p->name) ^ (u64)status * 31 ^ (u64)sig * 77 ^ (u64)now);
    for (auto f : p->fibers) { f->st = Fiber::DONE; }
    close_all_fds(p);
    if (p->slot->resident == p) p->slot->resident = nullptr;
    bool shared = false; for (auto o : procs) if (o != p && o->alive && o->slot == p->slot) shared = true;
    if (!shared) p->slot->busy = false;
    if (p->parent) p->parent->dirty = true;
    if (p->on_exit) p->on_exit();
    if (on_proc_exit) on_proc_exit(p);
}
void proc_exit_now(int status, int sig, const string &how) {
    Process *p = sim->cur->proc;
    sim->end_proc(p, status, sig, how);
    to_sched();
    abort();
}
void Sim::kill_proc(Process *p, int sig, const string &how) {
    if (!p->alive) return;
    if (cur && cur->proc == p) proc_exit_now(0, sig, how);
    end_proc(p, 0, sig, how);
}
void Sim::signal_proc(Process *p, int sig) {
    if (!p->alive) return;
    void *h = p->sighand.count(sig) ? p->sighand[sig] : nullptr;
    log("signal %d -> %s", sig, p->name.c_str());
    if (h == (void *)SIG_IGN) return;
    if (h == nullptr) {
        if (sig == SIGCHLD || sig == SIGURG || sig == SIGWINCH || sig == SIGCONT) return;
        if (p->pid1 && sig != SIGKILL) return;
        kill_proc(p, sig, fmt("signal %d", sig)); return;
    }
    p->sig_pending.insert(sig);
    vector<Fiber *> b; for (auto f : p->fibers) if (f->st == Fiber::BLOCKED) b.push_back(f);
    if (!b.empty()) {
        Fiber *f = p->mainf && p->mainf->st == Fiber::BLOCKED && rs.chance(0.7) ? p->mainf : b[rs.below(b.size())];
        f->intr = true; f->st = Fiber::READY;
    }
}
bool run_signals() {
    Fiber *f = sim->cur; Process *p = f->proc; bool ran = false;
    while (!p->sig_pending.empty()) {
        int s = *p->sig_pending.begin(); p->sig_pending.erase(s);
        void *h = p->sighand.count(s) ? p->sighand[s] : nullptr;
        if (h == (void *)SIG_IGN) continue;
        if (!h) { proc_exit_now(0, s, fmt("signal %d", s)); }
        if (p->sig_resethand.count(s)) p->sighand.erase(s);
        int e = errno; ((void (*)(int))h)(s); errno = e; ran = true;
        sim->fire("signal_delivered");
    }
    return ran;
}

void sim_yield() {
    Fiber *f = sim->cur; f->st = Fiber::READY; sim->n_preempt++;
    to_sched();
}
// A thread of a multi-threaded process may lose the CPU right after it released or published
// something, or while it manages memory, not only when it enters a call.
void sim_relax() {
    Fiber *f = sim->cur; if (!f || f->proc->fibers.size() < 2) return;
    if (sim->rs.chance(sim->p_yield)) { sim->fire("preempted_between_calls"); sim_yield(); }
}
bool sim_block(const char *what, function<bool()> pred, i64 deadline, bool interruptible) {
    Fiber *f = sim->cur; Process *p = f->proc;
    f->what = what; f->timed_out = false; f->intr = false;
    u64 gen = ++f->wait_gen;
    f->pred = std::move(pred); f->st = Fiber::BLOCKED; p->dirty = true;
    if (deadline >= 0) sim->at(deadline, [f, gen] { if (f->wait_gen == gen && f->st == Fiber::BLOCKED) { f->timed_out = true; f->st = Fiber::READY; } });
    bool ev = f->tid == 1 && p->prog == "spiped" && p->polls && (f->what == string("connect") || f->what == string("recv") || f->what == string("send") || f->what == string("read") || f->what == string("write") || f->what == string("accept"));
    if (ev) p->blk_since = sim->now, p->blk_what = what;
    to_sched();
    if (ev) { i64 d = sim->now - std::max(p->blk_since, p->paused_until); if (d > p->stuck_for) p->stuck_for = d, p->stuck_in = p->blk_what; p->blk_since = -1; }
    f->wait_gen++;
    bool r = !f->timed_out && !f->intr;
    f->pred = nullptr;
    if (f->intr) { run_signals(); f->intr = true; (void)interruptible; }
    return r;
}

Fault *Sim::fault_hit(Process *p, const char *call, u64 n) {
    if (faults.empty()) return nullptr;
    for (auto &f : faults) {
        if (f.call != call) continue;
        if (f.proc != "*" && f.proc != p->name) continue;
        if ((i64)n >= f.nth && (i64)n < f.nth + f.count) { f.used = true; fire(string("syscall:") + call + ":" + (f.err ? std::to_string(f.err) : f.mode)); log("fault %s %s #%llu err=%d %s", p->name.c_str(), call, (unsigned long long)n, f.err, f.mode.c_str()); return &f; }
    }
    return nullptr;
}

Fault *sim_step(const char *call) {
    Sim *s = sim; Fiber *f = s->cur; if (!f) return nullptr; Process *p = f->proc;
    s->steps++; p->steps++; Fault *fl = s->fault_hit(p, call, ++p->ncalls[call]);
    s->now += s->syscall_cost;
    s->mix(fnv(call) + (u64)p->pid * 1000003 + (u64)f->tid * 7919 + (u64)s->now);
    s->sched_hash = (s->sched_hash ^ (fnv(call) + (u64)p->pid * 31 + f->tid)) * 1099511628211ULL;
    if (s->trace) s->log("%s.%d %s", p->name.c_str(), f->tid, call);
    if (s->on_call) s->on_call(p, call);
    if (s->steps > s->max_steps) { s->fatal = true; s->fatal_msg = "step limit"; f->st = Fiber::READY; to_sched(); }
    bool due = !s->q.empty() && s->q.top()->at <= s->now;
    if (s->rs.chance(s->p_yield) || (due && s->rs.chance(0.7)) || p->paused_until > s->now) sim_yield();
    if (!p->sig_pending.empty()) run_signals();
    return fl;
}

static void arm_watchdog(int ms) { struct itimerval it{}; it.it_value.tv_sec = ms / 1000; it.it_value.tv_usec = (ms % 1000) * 1000; setitimer(ITIMER_VIRTUAL, &it, nullptr); }

void Sim::run(i64 until, function<bool()> stop) {
    extern void stdio_swap(Process *);
    t_limit = until;
    vector<Fiber *> ready;
    u64 wd = 0;
    while (!fatal) {
        while (!q.empty() && q.top()->at <= now) { Event *e = q.top(); q.pop(); e->fn(); delete e; if (fatal) return; }
        if (stop && stop()) return;
        ready.clear();
        i64 next_unpause = -1;
        for (auto p : procs) {
            if (!p->alive) continue;
            if (p->paused_until > now) { if (next_unpause < 0 || p->paused_until < next_unpause) next_unpause = p->paused_until; continue; }
            bool d = p->dirty; p->dirty = false;
            for (auto f : p->fibers) {
                if (f->st == Fiber::BLOCKED && d && f->pred()) f->st = Fiber::READY;
                if (f->st == Fiber::READY) ready.push_back(f);
            }
        }
        if (ready.empty()) {
            i64 t = -1;
            if (!q.empty()) t = q.top()->at;
            if (next_unpause >= 0 && (t < 0 || next_unpause < t)) t = next_unpause;
            if (t < 0) return;                 // quiescent for ever
            if (t > until) { now = until; return; }
            if (t > now) now = t;
            continue;
        }
        if (now > until) return;
        Fiber *f = ready.size() == 1 ? ready[0] : ready[rs.below(ready.size())];
        if (ready.size() > 1) { sched_hash = (sched_hash ^ (u64)(f->proc->pid * 64 + f->tid)) * 1099511628211ULL; }
        n_switch++;
        image_in(f->proc); stdio_swap(f->proc);
        if ((wd++ & 255) == 0) arm_watchdog(8000);
        crash_sig = 0;
        if (sigsetjmp(crash_jmp, 0) == 0) switch_in(f);
        else {
            // simulated process crashed (SIGSEGV etc.) or span without system calls
            sigset_t ss; sigemptyset(&ss); for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM}) sigaddset(&ss, s); sigprocmask(SIG_UNBLOCK, &ss, nullptr);
            arm_watchdog(8000);
            Fiber *cf = cur; cur = nullptr;
            if (crash_sig == SIGVTALRM) { cf->proc->hung = true; end_proc(cf->proc, 0, SIGKILL, "hang: spun without making a system call"); }
            else { end_proc(cf->proc, 0, crash_sig, fmt("crashed with signal %d", crash_sig)); }
        }
        cur = nullptr;
    }
}
