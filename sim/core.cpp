#include "core.hpp"
#include "props.hpp"
#include <algorithm>
#include <cerrno>
#include <cfenv>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <ctime>
#include <set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#endif
#endif
#ifdef SIM_ASAN
extern "C" {
void __sanitizer_start_switch_fiber(void** fake, const void* bottom, std::size_t size);
void __sanitizer_finish_switch_fiber(void* fake, const void** bottom, std::size_t* size);
void __asan_unpoison_memory_region(void const volatile*, std::size_t);
const char* __asan_default_options() {
    return "detect_leaks=0:handle_segv=0:handle_sigbus=0:allow_user_segv_handler=1:detect_stack_use_after_return=0:exitcode=99:allocator_may_return_null=1:"
           "malloc_context_size=8:print_legend=0:alloc_dealloc_mismatch=0:max_malloc_fill_size=0";
}
const char* __ubsan_default_options() { return "print_stacktrace=0:exitcode=98"; }
}
#endif
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace sim {
const char* const pt_name[NPT] = {"ctor_value", "ctor_copy", "ctor_move", "assign_value", "assign_copy", "assign_move",
    "swap", "compare", "hash", "callback", "alloc", "stream", "find", "convert"};
Machine* machines = nullptr;
bool verbose = false;
u64 exc_serial = 0;
u32 cur_fill = 0;

// ---------------------------------------------------------------- shared memory with the parent
constexpr u32 BITS = 1u << 22;
constexpr int MAXW = 64;
struct Report {
    char cls[96];
    char msg[400];
    u64 hash;
    u32 done;        // run finished normally
    u32 foreign;     // the run had been abandoned
    u32 step;
    u32 group;       // op group of the current step
};
struct WStat {
    volatile u64 index;   // seed index being run
    u64 runs, foreign, steps, yields, switches, faulted_runs;
    u64 fired[NPT], armed[NPT], modes[3];
    u64 multi_runs;
    u64 probes[64];
    Report rep;
};
struct Shm {
    WStat w[MAXW];
    Report iso;
    volatile u32 stop;
    char probe_name[64][48];
    u8 trans[BITS / 8];
    u8 inter[BITS / 8];
    u8 plans[BITS / 8];
};
static Shm* shm;
static WStat* ws;      // statistics of this process
static Report* rep;    // where violations are reported
static const Prop* prop;
static volatile bool g_foreign = false;
static volatile bool g_in_run = false;
static u64 g_hash, g_sched_hash;
static int g_step_no;

static void set_bit(u8* m, u64 key) {
    u32 b = u32(mix(key, 77)) % BITS;
    __atomic_fetch_or(&m[b / 8], u8(1u << (b % 8)), __ATOMIC_RELAXED);
}
static u64 count_bits(const u8* m) { u64 n = 0; for (u32 i = 0; i < BITS / 8; ++i) n += u64(__builtin_popcount(m[i])); return n; }
void note_transition(u64 key) { set_bit(shm->trans, key); }
void probe(u32 id, const char* name) {
    if (ws) ws->probes[id % 64]++;
    if (!shm->probe_name[id % 64][0]) std::snprintf(shm->probe_name[id % 64], 48, "%s", name);
}
void log_event(u64 code) { g_hash = (g_hash ^ code) * 0x100000001B3ull; g_hash ^= g_hash >> 29; }
bool foreign() { return g_foreign; }
bool strict_move() { return prop->strict_move; }
bool strict_const() { return prop->strict_const; }

void trace(const char* fmt, ...) {
    if (!verbose) return;
    va_list ap; va_start(ap, fmt); std::vfprintf(stderr, fmt, ap); va_end(ap); std::fputc('\n', stderr);
}
// a property only judges the steps it is about
static bool judged() { return !prop->judge || (rep->group & prop->judge); }
[[noreturn]] static void die(const char* cls) {
    if (!rep->cls[0]) { std::snprintf(rep->cls, sizeof rep->cls, "%s", cls); }
    rep->hash = g_hash; rep->step = u32(g_step_no);
    rep->foreign = g_foreign;
    _exit(77);
}
void violation(u32 oracle, const char* label, const char* fmt, ...) {
    if (g_foreign) return;
    char buf[400];
    va_list ap; va_start(ap, fmt); std::vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (verbose) trace("!! %s%s: %s", label, (oracle & prop->oracles) ? "" : " (not judged by this property)", buf);
    if (!(oracle & prop->oracles) || !judged()) { g_foreign = true; rep->foreign = 1; return; }
    std::snprintf(rep->msg, sizeof rep->msg, "%s", buf);
    std::snprintf(rep->cls, sizeof rep->cls, "%s", label);
    die(label);
}
void verify_failed(const char* expr, const char* msg) noexcept {
    violation(O_VERIFY, "library-assertion", "OPTION_VERIFY(%s) failed: %s", expr, msg);
    if (g_foreign) _exit(78); // cannot go on
}

// ---------------------------------------------------------------- memory
static std::size_t g_live = 0;
static u64 g_alloc_no = 0;
std::size_t live_allocs() { return g_live; }
void fill_bytes(void* p, std::size_t n, u32 fill, u32 salt) {
    u8* b = static_cast<u8*>(p);
    switch (fill % 8) {
    case 0: std::memset(b, 0x00, n); break;
    case 1: std::memset(b, 0xFF, n); break;
    case 2: std::memset(b, 0xAA, n); break;
    case 3: std::memset(b, 0x01, n); break;
    case 4: std::memset(b, 0x02, n); break;
    case 5: for (std::size_t i = 0; i < n; ++i) b[i] = u8(i + 1); break;
    default: { Rng r(mix(fill, salt)); for (std::size_t i = 0; i < n; ++i) b[i] = u8(r.next() >> 24); }
    }
}
static void* do_alloc(std::size_t n, std::size_t al, bool nothrow) {
    if (g_in_run && cur && cur->armed && point(PT_ALLOC)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    if (n > (std::size_t(1) << 32)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    void* p = al > 16 ? std::aligned_alloc(al, (n + al - 1) / al * al) : std::malloc(n ? n : 1);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    if (g_in_run && n < 4096) fill_bytes(p, n, cur_fill, u32(++g_alloc_no));
    ++g_live;
    return p;
}
static void do_free(void* p) noexcept { if (p) { --g_live; std::free(p); } }

struct Prot { u8* p; std::size_t n; };
static Prot g_prot[8];
void* page_alloc(std::size_t n) {
    n = (n + 4095) / 4096 * 4096;
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) _exit(79);
    return p;
}
void page_protect(void* p, std::size_t n, bool ro) {
    n = (n + 4095) / 4096 * 4096;
    mprotect(p, n, ro ? PROT_READ : PROT_READ | PROT_WRITE);
    for (auto& x : g_prot) if (x.p == p) x.p = nullptr;
    if (ro) for (auto& x : g_prot) if (!x.p) { x = {static_cast<u8*>(p), n}; break; }
}
void page_free(void* p, std::size_t n) {
    n = (n + 4095) / 4096 * 4096;
    for (auto& x : g_prot) if (x.p == p) x.p = nullptr;
    munmap(p, n);
}

// ---------------------------------------------------------------- ledger
struct Ent { std::uintptr_t p; u32 type; };
static Ent g_led[8192];   // dense: only live objects
static std::size_t g_led_n;
static Ent* led_find(std::uintptr_t p, u32 type) {
    for (std::size_t i = g_led_n; i-- > 0;) if (g_led[i].p == p && g_led[i].type == type) return &g_led[i];
    return nullptr;
}
static void led_put(std::uintptr_t p, u32 type) { if (g_led_n >= 8192) _exit(79); g_led[g_led_n++] = {p, type}; }
void led_construct(const void* p, u32 type, const char* what) {
    if (led_find(std::uintptr_t(p), type)) { violation(O_LIFE, "construct-over-live", "%s constructs an object where a live one is", what); return; }
    led_put(std::uintptr_t(p), type);
}
void led_destroy(const void* p, u32 type, const char* what) {
    Ent* e = led_find(std::uintptr_t(p), type);
    if (!e) { violation(O_LIFE, "destroy-dead", "%s destroys an object that is not alive", what); return; }
    *e = g_led[--g_led_n];
}
void led_use(const void* p, u32 type, const char* what) {
    if (!led_find(std::uintptr_t(p), type)) violation(O_LIFE, "use-of-dead", "%s uses an object that is not alive", what);
}
bool led_live(const void* p, u32 type) { return led_find(std::uintptr_t(p), type) != nullptr; }
std::size_t led_count() { return g_led_n; }
std::size_t led_in_range(const void* p, std::size_t n) {
    std::size_t c = 0;
    for (std::size_t i = 0; i < g_led_n; ++i) if (g_led[i].p >= std::uintptr_t(p) && g_led[i].p < std::uintptr_t(p) + n) ++c;
    return c;
}
void led_reset() { g_led_n = 0; }

// ---------------------------------------------------------------- fibers and scheduling
constexpr int MAXT = 4;
constexpr std::size_t STACK = 256 * 1024;
struct EhGlobals { void* caught; unsigned uncaught; };
struct Fiber {
    ucontext_t uc;
    void* stack = nullptr;
    bool done = false;
    Ctx ctx;
    EhGlobals eh{};
    void* fake = nullptr;
};
static Fiber g_fib[MAXT];
static Fiber g_main;
static Fiber* g_cur = &g_main;
Ctx* cur = &g_main.ctx;
static const Plan* g_plan;
static World* g_world;
static std::size_t g_sched_pos;
static int g_ntasks;
static const void* g_main_bottom; static std::size_t g_main_size;
static bool g_sched_on;
static u32 g_group[MAXT];
static const std::vector<OpInfo>* g_ops;

static void switch_to(Fiber* to) {
    Fiber* from = g_cur;
    if (from == to) return;
    auto* eh = reinterpret_cast<EhGlobals*>(__cxxabiv1::__cxa_get_globals());
    from->eh = *eh; *eh = to->eh;
    g_cur = to; cur = &to->ctx;
#ifdef SIM_ASAN
    const void* bottom = to == &g_main ? g_main_bottom : to->stack;
    std::size_t size = to == &g_main ? g_main_size : STACK;
    __sanitizer_start_switch_fiber(from->done ? nullptr : &from->fake, bottom, size);
#endif
    rep->group = to == &g_main ? 0 : g_group[to - g_fib];
    swapcontext(&from->uc, &to->uc);
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(from->fake, from == &g_main ? nullptr : nullptr, nullptr);
#endif
}
void yield_point() {
    cur->points++;
    if (!g_sched_on || g_cur == &g_main || g_ntasks < 2) return;
    if (ws) ws->yields++;
    if (g_sched_pos >= g_plan->sched.size()) return;
    u8 b = g_plan->sched[g_sched_pos++];
    if (b == 0) return;
    int me = int(g_cur - g_fib);
    for (int k = 0; k < g_ntasks; ++k) {
        int t = (me + b + k) % g_ntasks;
        if (t != me && !g_fib[t].done) {
            if (ws) ws->switches++;
            g_sched_hash = mix(g_sched_hash, (u64(g_step_no) << 20) ^ (u64(g_sched_pos) << 4) ^ u64(t));
            trace("   ~ preempt task %d -> task %d", me, t);
            switch_to(&g_fib[t]);
            return;
        }
    }
}
bool point(Pt p) {
    note_copy(p);
    if (p != PT_ALLOC) yield_point(); else cur->points++;
    Ctx& c = *cur;
    if (!c.armed || !c.step) return false;
    const Fault& f = c.step->f;
    if (!(f.mask >> p & 1) || c.fired) return false;
    if (ws) ws->armed[p]++;
    if (c.hits++ != f.nth) return false;
    c.fired = true; c.fired_at = p; c.serial = ++exc_serial;
    if (ws) { ws->fired[p]++; ws->modes[f.mode % 3]++; }
    trace("   * fault: %s (mode %d, exception %d)", pt_name[p], int(f.mode), int(f.exc));
    log_event(0xFA00 + p);
    return true;
}
int fault_mode() { return cur->step ? cur->step->f.mode % 3 : 0; }
void raise() {
    u64 s = cur->serial;
    switch (cur->step->f.exc % 4) {
    case 0: throw SimExc{s};
    case 1: throw SimErr{s};
    case 2: throw int(s);
    default: { BigExc b{}; b.serial = s; throw b; }
    }
}
static void run_task(int t) {
    Ctx& c = g_fib[t].ctx;
    c.id = t;
    const auto& steps = g_plan->tasks[std::size_t(t)];
    for (std::size_t i = 0; i < steps.size() && !g_foreign; ++i) {
        const Step& s = steps[i];
        c.step = &s; c.armed = false; c.hits = 0; c.fired = false; c.fired_at = NPT;
        g_step_no = int(i) | (t << 16);
        rep->group = g_group[t] = (*g_ops)[s.op % g_ops->size()].group;
        if (verbose) {
            char f[96] = "";
            if (s.f.mask) std::snprintf(f, sizeof f, "  [fault mask=%#x nth=%d mode=%d]", s.f.mask, s.f.nth, s.f.mode);
            trace("task %d step %zu: %s(%d,%d,%d,%d,%d)%s", t, i, (*g_ops)[s.op % g_ops->size()].name, s.a[0], s.a[1], s.a[2], s.a[3], s.a[4], f);
        }
        try { g_world->step(t, s); }
        catch (...) { violation(O_EXC, "escaped", "an exception escaped outside of the library call"); }
        c.armed = false;
        log_event((u64(t) << 32) ^ (u64(s.op) << 8) ^ c.fired);
        if (ws) ws->steps++;
        yield_point();
    }
    c.step = nullptr;
}
static void fiber_entry(int t) {
#ifdef SIM_ASAN
    const void* b; std::size_t n;
    __sanitizer_finish_switch_fiber(nullptr, &b, &n);
    if (!g_main_bottom) { g_main_bottom = b; g_main_size = n; }
#endif
    run_task(t);
    g_fib[t].done = true;
    // the next unfinished task, else the main context
    for (int k = 1; k <= g_ntasks; ++k) { int n2 = (t + k) % g_ntasks; if (!g_fib[n2].done) { switch_to(&g_fib[n2]); _exit(79); } }
    switch_to(&g_main);
    _exit(79);
}
static void paint_stack(void* p, std::size_t n, u32 fill) {
#ifdef SIM_ASAN
    __asan_unpoison_memory_region(p, n);
#endif
    fill_bytes(p, n, fill % 6, 1);
}

struct RunResult { u64 hash; };
static Machine* find_machine(const std::string& n) { for (Machine* m = machines; m; m = m->next) if (n == m->name) return m; return nullptr; }

static u64 execute(const Plan& plan, u32 fill) {
    Machine* m = find_machine(plan.machine);
    if (!m) { std::fprintf(stderr, "no machine %s\n", plan.machine.c_str()); _exit(79); }
    g_plan = &plan; g_ops = &m->ops();
    g_hash = 14695981039346656037ull; g_sched_hash = 1; g_sched_pos = 0; exc_serial = 100; g_step_no = -1;
    g_foreign = false; rep->foreign = 0; cur_fill = fill; g_alloc_no = 0;
    led_reset(); rep->group = 0; std::memset(g_group, 0, sizeof g_group);
    g_cur = &g_main; cur = &g_main.ctx; *cur = Ctx{};
    const std::size_t live0 = g_live;
    g_ntasks = int(plan.tasks.size());
    g_in_run = true; g_sched_on = false;
    g_world = m->create();
    g_world->setup(plan);
    for (int t = 0; t < g_ntasks; ++t) {
        Fiber& f = g_fib[t];
        if (!f.stack) f.stack = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        paint_stack(static_cast<u8*>(f.stack) + STACK - 24 * 1024, 24 * 1024, fill);
        f.done = false; f.ctx = Ctx{}; f.eh = EhGlobals{}; f.fake = nullptr;
        getcontext(&f.uc);
        f.uc.uc_stack.ss_sp = f.stack; f.uc.uc_stack.ss_size = STACK; f.uc.uc_link = nullptr;
        makecontext(&f.uc, reinterpret_cast<void (*)()>(fiber_entry), 1, t);
    }
    g_sched_on = true;
    if (g_ntasks) switch_to(&g_fib[0]);
    g_sched_on = false;
    g_step_no = -2; rep->group = 0;
    g_world->finish();
    delete g_world;
    g_world = nullptr;
    g_in_run = false;
    if (!g_foreign) {
        SIM_CHECK(O_LIFE, led_count() == 0, "leak-object", "%zu objects were never destroyed", led_count());
        SIM_CHECK(O_LIFE, g_live == live0, "leak-memory", "%zd allocations were not released", ssize_t(g_live) - ssize_t(live0));
    }
    log_event(g_foreign ? 0xF0 : 0xF1);
    if (g_ntasks > 1) set_bit(shm->inter, g_sched_hash);
    return g_hash;
}
static void watchdog(int secs) { itimerval tv{}; tv.it_value.tv_sec = secs; setitimer(ITIMER_VIRTUAL, &tv, nullptr); }
static u64 run_plan(const Plan& plan) {
    watchdog(20);
    u64 h = execute(plan, plan.fill);
    if (prop->diff_fill && !g_foreign) {
        for (u32 k = 1; k <= 3 && !g_foreign; ++k) {
            u64 h2 = execute(plan, plan.fill + k * 3);
            if (!g_foreign && h2 != h) violation(O_BYTES, "fill-dependence", "the event log depends on what memory held before (fill %u vs %u)", plan.fill, plan.fill + k * 3);
        }
    }
    return h;
}

// ---------------------------------------------------------------- plan generation
static bool eligible(const Machine* m) {
    return (m->tags & prop->tags) && !(m->tags & prop->not_tags) && (m->tags & prop->need_tags) == prop->need_tags;
}
static u32 share(const Machine* m) { return m->weight ? m->weight * 4 : 1; } // weight 0: a machine whose executions take long
static Plan gen_plan(u64 seed) {
    Rng r(seed);
    Plan p; p.seed = seed;
    static std::vector<Machine*> ms; static u32 total;
    if (ms.empty()) {
        for (Machine* m = machines; m; m = m->next) if (eligible(m)) ms.push_back(m);
        std::sort(ms.begin(), ms.end(), [](Machine* a, Machine* b) { return std::strcmp(a->name, b->name) < 0; });
        for (auto* m : ms) total += share(m);
        if (ms.empty()) { std::fprintf(stderr, "no eligible machine\n"); std::exit(2); }
    }
    u32 x = r.below(total); Machine* m = ms[0];
    for (auto* c : ms) { if (x < share(c)) { m = c; break; } x -= share(c); }
    p.machine = m->name;
    p.fill = r.below(64);
    for (auto& c : p.cfg) c = r.below(1u << 16);
    const auto& ops = m->ops();
    // swarm: a random subset of the enabled operations
    std::vector<u32> w(ops.size(), 0); u32 tw = 0;
    const u32 keep = r.below(3) == 0 ? 100 : (r.below(2) ? 50 : 25);
    bool any = false;
    for (std::size_t i = 0; i < ops.size(); ++i) {
        if (!(ops[i].group & prop->groups)) continue;
        u32 wt = ops[i].weight * 4;
        if (!r.chance(keep, 100) && !(ops[i].group & G_CTOR)) wt = 0; else if (ops[i].group & ~u32(G_CTOR)) any = any || wt;
        w[i] = wt; tw += wt;
    }
    if (!any || !tw) { tw = 0; for (std::size_t i = 0; i < ops.size(); ++i) { w[i] = (ops[i].group & prop->groups) ? ops[i].weight * 4 : 0; tw += w[i]; } }
    if (!tw) { std::fprintf(stderr, "machine %s has no enabled operation\n", m->name); std::exit(2); }
    int nt = prop->max_tasks > 1 && r.chance(1, 3) ? 2 + int(r.below(u32(prop->max_tasks - 1))) : 1;
    if (nt > MAXT) nt = MAXT;
    const bool faulty = prop->faults && r.chance(prop->fault_runs, 100);
    const u32 hot = r.below(5);            // one fault point class preferred in this run
    std::vector<Pt> pts; for (int q = 0; q < NPT; ++q) if (prop->faults >> q & 1) pts.push_back(Pt(q));
    const u32 hotpt = pts.empty() ? 0 : u32(pts[r.below(u32(pts.size()))]);
    for (int t = 0; t < nt; ++t) {
        std::vector<Step> st;
        u32 n = 2 + r.below(r.below(4) == 0 ? u32(prop->max_steps) : u32(prop->max_steps) / 3 + 1);
        if (nt > 1) n = n / 2 + 2;
        for (u32 i = 0; i < n; ++i) {
            Step s; u32 y = r.below(tw);
            for (std::size_t k = 0; k < w.size(); ++k) { if (y < w[k]) { s.op = u16(k); break; } y -= w[k]; }
            for (auto& a : s.a) a = u16(r.below(4) == 0 ? r.below(65536) : r.below(24));
            if (faulty && r.chance(prop->fault_steps, 100)) {
                u32 c = r.below(5);
                s.f.mask = c < 2 ? prop->faults : (hot < 3 ? (1u << hotpt) : (pts.empty() ? 0 : 1u << pts[r.below(u32(pts.size()))]));
                s.f.nth = u8(r.below(3) ? 0 : r.below(5));
                s.f.mode = u8(r.below(3));
                s.f.exc = u8(r.below(4));
            }
            st.push_back(s);
        }
        p.tasks.push_back(st);
    }
    if (nt > 1) {
        static const u32 dens[] = {3, 10, 30, 60, 90};
        u32 d = dens[r.below(5)], len = 40 + r.below(400);
        for (u32 i = 0; i < len; ++i) p.sched.push_back(r.chance(d, 100) ? u8(1 + r.below(u32(nt))) : 0);
    }
    return p;
}

// ---------------------------------------------------------------- isolated execution, minimisation, replay files
struct Iso { std::string cls, msg; u64 hash; bool bad; u32 step; };
static Iso run_isolated(const Plan& p, const char* errfile = nullptr) {
    std::memset(&shm->iso, 0, sizeof shm->iso);
    std::fflush(stdout); std::fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        rep = &shm->iso; ws = nullptr;
        if (!verbose) { int fd = open(errfile ? errfile : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) dup2(fd, 2); }
        u64 h = run_plan(p);
        rep->hash = h; rep->done = 1; rep->foreign = g_foreign;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Iso r; r.hash = shm->iso.hash; r.cls = shm->iso.cls; r.msg = shm->iso.msg; r.step = shm->iso.step; r.bad = false;
    if (shm->iso.done) { r.cls.clear(); return r; }
    if (shm->iso.foreign || (WIFEXITED(st) && (WEXITSTATUS(st) == 78))) { r.cls.clear(); return r; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 79) { r.cls = "simulator-error"; r.bad = false; return r; }
    r.bad = true;
    if (r.cls.empty()) {
        if (WIFSIGNALED(st)) r.cls = "crash-signal-" + std::to_string(WTERMSIG(st));
        else r.cls = "crash-sanitizer";
        r.msg = "the process died inside an operation";
        r.hash = 0;
    }
    if (r.cls.rfind("crash", 0) == 0 && (!(prop->oracles & O_CRASH) || (prop->judge && !(shm->iso.group & prop->judge)))) r.bad = false;
    return r;
}
static std::string plan_text(const Plan& p, const Iso* expect) {
    std::string s; char b[256];
    auto add = [&](const char* f, auto... a) { std::snprintf(b, sizeof b, f, a...); s += b; };
    add("option-sim-replay 1\nproperty %s\nmachine %s\nseed %llu\nfill %u\ncfg %u %u %u %u\ntasks %zu\n", prop->id, p.machine.c_str(), (unsigned long long)p.seed, p.fill,
        p.cfg[0], p.cfg[1], p.cfg[2], p.cfg[3], p.tasks.size());
    s += "sched"; for (u8 x : p.sched) add(" %d", int(x)); s += "\n";
    Machine* m = find_machine(p.machine);
    for (std::size_t t = 0; t < p.tasks.size(); ++t) for (auto& st : p.tasks[t])
        add("step %zu %s %u %u %u %u %u fault %u %u %u %u\n", t, m->ops()[st.op % m->ops().size()].name, st.a[0], st.a[1], st.a[2], st.a[3], st.a[4], st.f.mask, st.f.nth, st.f.mode, st.f.exc);
    if (expect) add("expect %016llx %s\n", (unsigned long long)expect->hash, expect->cls.c_str());
    return s;
}
static bool parse_plan(const char* path, Plan& p, std::string& cls, u64& hash) {
    FILE* f = std::fopen(path, "r"); if (!f) return false;
    static char line[65536]; bool ok = false;
    while (std::fgets(line, sizeof line, f)) {
        char w[64] = ""; int off = 0; std::sscanf(line, "%63s %n", w, &off); std::string k = w; char* rest = line + off;
        if (k == "option-sim-replay") ok = true;
        else if (k == "property") { char id[16]; std::sscanf(rest, "%15s", id); prop = find_prop(id); if (!prop) return false; }
        else if (k == "machine") { char n[64]; std::sscanf(rest, "%63s", n); p.machine = n; }
        else if (k == "seed") p.seed = std::strtoull(rest, nullptr, 10);
        else if (k == "fill") p.fill = u32(std::strtoul(rest, nullptr, 10));
        else if (k == "cfg") std::sscanf(rest, "%u %u %u %u", &p.cfg[0], &p.cfg[1], &p.cfg[2], &p.cfg[3]);
        else if (k == "tasks") p.tasks.resize(std::strtoul(rest, nullptr, 10));
        else if (k == "sched") { char* e; for (;;) { unsigned long v = std::strtoul(rest, &e, 10); if (e == rest) break; p.sched.push_back(u8(v)); rest = e; } }
        else if (k == "step") {
            unsigned t, a[5], fm, fn, fo, fe; char n[64];
            if (std::sscanf(rest, "%u %63s %u %u %u %u %u fault %u %u %u %u", &t, n, a, a + 1, a + 2, a + 3, a + 4, &fm, &fn, &fo, &fe) != 11) return false;
            Machine* m = find_machine(p.machine); if (!m || t >= p.tasks.size()) return false;
            Step s; bool found = false;
            for (std::size_t i = 0; i < m->ops().size(); ++i) if (!std::strcmp(m->ops()[i].name, n)) { s.op = u16(i); found = true; }
            if (!found) return false;
            for (int i = 0; i < 5; ++i) s.a[i] = u16(a[i]);
            s.f = Fault{fm, u8(fn), u8(fo), u8(fe)};
            p.tasks[t].push_back(s);
        }
        else if (k == "expect") { unsigned long long h; char c[96]; if (std::sscanf(rest, "%llx %95s", &h, c) == 2) { hash = h; cls = c; } }
    }
    std::fclose(f);
    return ok && prop && find_machine(p.machine);
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }

static Plan minimise(Plan p, const std::string& cls, double budget, u64& tried) {
    const double end = now() + budget;
    auto still = [&](const Plan& q) { if (now() > end) return false; ++tried; Iso r = run_isolated(q); return r.bad && r.cls == cls; };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        // whole tasks
        for (std::size_t t = 0; p.tasks.size() > 1 && t < p.tasks.size();) {
            Plan q = p; q.tasks.erase(q.tasks.begin() + long(t));
            if (still(q)) { p = q; progress = true; } else ++t;
        }
        if (!p.sched.empty()) { Plan q = p; q.sched.clear(); if (still(q)) { p = q; progress = true; } }
        // steps, in chunks of decreasing size
        for (std::size_t t = 0; t < p.tasks.size(); ++t)
            for (std::size_t c = std::max<std::size_t>(1, p.tasks[t].size() / 2);; c /= 2) {
                for (std::size_t i = 0; i < p.tasks[t].size();) {
                    Plan q = p; auto& v = q.tasks[t];
                    v.erase(v.begin() + long(i), v.begin() + long(std::min(i + c, v.size())));
                    if (still(q)) { p = q; progress = true; } else i += c;
                }
                if (c <= 1) break;
            }
        // schedule: shorten, then quieten
        while (!p.sched.empty()) { Plan q = p; q.sched.resize(p.sched.size() / 2); if (still(q)) { p = q; progress = true; } else break; }
        while (!p.sched.empty() && p.sched.back() == 0) p.sched.pop_back();
        for (std::size_t i = 0; i < p.sched.size(); ++i) if (p.sched[i]) { Plan q = p; q.sched[i] = 0; if (still(q)) { p = q; progress = true; } }
        // faults and arguments
        for (std::size_t t = 0; t < p.tasks.size(); ++t) for (std::size_t i = 0; i < p.tasks[t].size(); ++i) {
            auto attempt = [&](auto edit) { Plan q = p; if (!edit(q.tasks[t][i])) return; if (still(q)) { p = q; progress = true; } };
            attempt([](Step& s) { if (!s.f.mask) return false; s.f = Fault{}; return true; });
            for (int b = 0; b < NPT; ++b) attempt([b](Step& s) { if (!(s.f.mask >> b & 1) || !(s.f.mask & (s.f.mask - 1))) return false; s.f.mask &= ~(1u << b); return true; });
            attempt([](Step& s) { if (!s.f.nth) return false; s.f.nth = 0; return true; });
            attempt([](Step& s) { if (!s.f.mode) return false; s.f.mode = 0; return true; });
            attempt([](Step& s) { if (!s.f.exc) return false; s.f.exc = 0; return true; });
            for (int k = 0; k < 5; ++k) {
                attempt([k](Step& s) { if (!s.a[k]) return false; s.a[k] = 0; return true; });
                attempt([k](Step& s) { if (s.a[k] < 24) return false; s.a[k] = u16(s.a[k] % 24); return true; });
                attempt([k](Step& s) { if (s.a[k] <= 1) return false; s.a[k] = 1; return true; });
            }
        }
        { Plan q = p; if (q.fill) { q.fill = 0; if (still(q)) { p = q; progress = true; } } }
        for (int k = 0; k < 4; ++k) { Plan q = p; if (q.cfg[k]) { q.cfg[k] = 0; if (still(q)) { p = q; progress = true; } } }
    }
    return p;
}

// ---------------------------------------------------------------- signals
static void on_segv(int sig, siginfo_t* si, void*) {
    const u8* a = static_cast<const u8*>(si->si_addr);
    for (auto& x : g_prot) if (x.p && a >= x.p && a < x.p + x.n) {
        violation(O_CONST, "write-to-shared", "an operation that only reads wrote to a shared object");
        die("write-to-shared-foreign");
    }
    signal(sig, SIG_DFL); raise_again: ::raise(sig); goto raise_again;
}
static void on_terminate() {
    if (!rep->cls[0]) { std::snprintf(rep->cls, sizeof rep->cls, "crash-terminate"); std::snprintf(rep->msg, sizeof rep->msg, "std::terminate was called"); }
    if (!(prop->oracles & O_CRASH) || !judged()) g_foreign = true;
    die("crash-terminate");
}
static void on_fpe(int, siginfo_t*, void*) {
    violation(O_FPENV, "fp-trap", "an operation raised a floating-point trap");
    die("fp-trap-foreign");
}
static void on_vtalrm(int) {
    if (!rep->cls[0]) { std::snprintf(rep->cls, sizeof rep->cls, "crash-hang"); std::snprintf(rep->msg, sizeof rep->msg, "no end in sight"); }
    die("crash-hang");
}
static void install_signals() {
    static u8 alt[65536];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
    sa.sa_sigaction = on_fpe; sigaction(SIGFPE, &sa, nullptr);
    struct sigaction sv{}; sv.sa_handler = on_vtalrm; sv.sa_flags = SA_ONSTACK; sigaction(SIGVTALRM, &sv, nullptr);
    std::set_terminate(on_terminate);
}

// ---------------------------------------------------------------- the search
static u64 seed_of(u64 base, u64 index) { u64 h = base; for (const char* c = prop->id; *c; ++c) h = mix(h, u64(*c)); return mix(h, index); }
[[noreturn]] static void worker(int w, int nw, u64 base, u64 from, u64 min_runs, double deadline) {
    ws = &shm->w[w]; rep = &ws->rep;
    int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); }
    for (u64 i = from; !shm->stop; i += u64(nw)) {
        if (i >= min_runs && now() > deadline) break;
        ws->index = i;
        std::memset(rep, 0, sizeof *rep);
        Plan p = gen_plan(seed_of(base, i));
        bool anyf = false; u64 ph = mix(u64(p.fill), p.tasks.size());
        for (char c : p.machine) ph = mix(ph, u64(c));
        for (auto& t : p.tasks) for (auto& s : t) { anyf = anyf || s.f.mask; ph = mix(ph, (u64(s.op) << 32) ^ s.a[0] ^ (u64(s.f.mask) << 8)); }
        set_bit(shm->plans, ph);
        ws->faulted_runs += anyf; ws->multi_runs += p.tasks.size() > 1;
        u64 h = run_plan(p);
        (void)h;
        ws->runs++;
        if (g_foreign) ws->foreign++;
    }
    _exit(0);
}
static void json_str(std::string& o, const std::string& s) {
    o += '"';
    for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (u8(c) >= 32) o += c; }
    o += '"';
}
static int usage() { std::fprintf(stderr, "usage: sim --prop ID [--seed N] [--seconds S] [--min-runs N] [--workers N] [--out FILE] [--replay-file FILE] | --replay FILE | --selfcheck N | --show INDEX\n"); return 2; }
} // namespace sim

void* operator new(std::size_t n) { return sim::do_alloc(n, 0, false); }
void* operator new[](std::size_t n) { return sim::do_alloc(n, 0, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return sim::do_alloc(n, 0, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return sim::do_alloc(n, 0, true); }
void* operator new(std::size_t n, std::align_val_t a) { return sim::do_alloc(n, std::size_t(a), false); }
void* operator new[](std::size_t n, std::align_val_t a) { return sim::do_alloc(n, std::size_t(a), false); }
void operator delete(void* p) noexcept { sim::do_free(p); }
void operator delete[](void* p) noexcept { sim::do_free(p); }
void operator delete(void* p, std::size_t) noexcept { sim::do_free(p); }
void operator delete[](void* p, std::size_t) noexcept { sim::do_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::do_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::do_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim::do_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::do_free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { sim::do_free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { sim::do_free(p); }

using namespace sim;
int main(int argc, char** argv) {
    std::string pid, out, replay, replay_out = "replay.txt";
    u64 seed = 1, min_runs = 2000, selfcheck = 0; double seconds = 10; int nw = 8; long show = -1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto v = [&] { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") pid = v(); else if (a == "--seed") seed = std::strtoull(v(), nullptr, 10);
        else if (a == "--seconds") seconds = std::atof(v()); else if (a == "--min-runs") min_runs = std::strtoull(v(), nullptr, 10);
        else if (a == "--workers") nw = std::atoi(v()); else if (a == "--out") out = v(); else if (a == "--replay") replay = v();
        else if (a == "--replay-file") replay_out = v(); else if (a == "--selfcheck") selfcheck = std::strtoull(v(), nullptr, 10);
        else if (a == "--show") show = std::atol(v()); else if (a == "--verbose") verbose = true;
        else return usage();
    }
    // one address-space layout for every execution
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !std::getenv("SIM_REEXEC")) {
        setenv("SIM_REEXEC", "1", 1);
        if (personality(unsigned(pers) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (shm == MAP_FAILED) return 2;
    rep = &shm->iso;
    install_signals();
    if (nw < 1) nw = 1;
    if (nw > MAXW) nw = MAXW;

    if (!replay.empty()) {
        Plan p; std::string cls; u64 hash = 0;
        if (!parse_plan(replay.c_str(), p, cls, hash)) { std::fprintf(stderr, "cannot read replay file\n"); return 2; }
        if (verbose) { Iso r = run_isolated(p); if (r.bad) trace("=> %s: %s", r.cls.c_str(), r.msg.c_str()); }
        bool vb = verbose; verbose = false; Iso r = run_isolated(p); verbose = vb;
        std::printf("REPLAY %s %016llx %s\n", r.bad ? r.cls.c_str() : "ok", (unsigned long long)r.hash, r.msg.c_str());
        if (!r.bad) return 0;
        return (cls.empty() || (r.cls == cls && r.hash == hash)) ? 1 : 3;
    }
    prop = find_prop(pid.c_str());
    if (!prop) return usage();
    if (show >= 0) {
        Plan p = gen_plan(seed_of(seed, u64(show)));
        std::fputs(plan_text(p, nullptr).c_str(), stdout); verbose = true; Iso r = run_isolated(p);
        std::printf("%s %s %016llx\n", r.bad ? r.cls.c_str() : "ok", r.msg.c_str(), (unsigned long long)r.hash); return 0;
    }
    if (selfcheck) {
        // the same plan in a fresh process, and after a different history in another process
        u64 bad = 0;
        for (u64 i = 0; i < selfcheck; ++i) {
            Plan p = gen_plan(seed_of(seed, i));
            Iso a = run_isolated(p); rep = &shm->iso; ws = nullptr;
            pid_t c = fork();
            if (c == 0) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); std::memset(rep, 0, sizeof *rep); run_plan(gen_plan(seed_of(seed, i + 7919))); run_plan(gen_plan(seed_of(seed, i + 15485863))); rep->hash = run_plan(p); rep->done = 1; _exit(0); }
            int st; waitpid(c, &st, 0);
            if (a.hash != rep->hash) { ++bad; std::printf("seed index %llu: %016llx vs %016llx\n", (unsigned long long)i, (unsigned long long)a.hash, (unsigned long long)rep->hash); }
        }
        std::printf("selfcheck: %llu plans, %llu diverged\n", (unsigned long long)selfcheck, (unsigned long long)bad);
        return bad ? 1 : 0;
    }

    const double t0 = now(), deadline = t0 + seconds;
    std::vector<pid_t> pids(std::size_t(nw), -1);
    std::vector<std::pair<u64, std::string>> found;   // (index, class)
    auto spawn = [&](int w, u64 from) { std::fflush(stdout); pid_t p = fork(); if (p == 0) worker(w, nw, seed, from, min_runs, deadline); pids[std::size_t(w)] = p; };
    for (int w = 0; w < nw; ++w) spawn(w, u64(w));
    int alive = nw;
    while (alive > 0) {
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        int w = -1; for (int k = 0; k < nw; ++k) if (pids[std::size_t(k)] == p) w = k;
        if (w < 0) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { --alive; continue; }
        WStat& s = shm->w[w];
        if (WIFEXITED(st) && WEXITSTATUS(st) == 79) { std::fprintf(stderr, "simulator error at index %llu\n", (unsigned long long)s.index); return 2; }
        bool fgn = s.rep.foreign || (WIFEXITED(st) && WEXITSTATUS(st) == 78);
        std::string cls = s.rep.cls;
        if (cls.empty()) cls = "crash";
        if (cls.rfind("crash", 0) == 0 && (!(prop->oracles & O_CRASH) || (prop->judge && !(s.rep.group & prop->judge)))) fgn = true;
        if (fgn) { s.foreign++; s.runs++; }
        else { found.push_back({s.index, cls}); if (found.size() >= 6) shm->stop = 1; }
        if (shm->stop || (!found.empty() && now() > t0 + std::min(seconds, 4.0))) { shm->stop = 1; --alive; continue; }
        spawn(w, s.index + u64(nw));
    }
    const double t_search = now() - t0;
    // totals
    WStat tot{}; 
    for (int w = 0; w < nw; ++w) {
        WStat& s = shm->w[w];
        tot.runs += s.runs; tot.foreign += s.foreign; tot.steps += s.steps; tot.yields += s.yields; tot.switches += s.switches; tot.faulted_runs += s.faulted_runs; tot.multi_runs += s.multi_runs;
        for (int k = 0; k < NPT; ++k) { tot.fired[k] += s.fired[k]; tot.armed[k] += s.armed[k]; }
        for (int k = 0; k < 3; ++k) tot.modes[k] += s.modes[k];
        for (int k = 0; k < 64; ++k) tot.probes[k] += s.probes[k];
    }
    // gate and minimise
    int rc = 0; Iso fin{}; Plan finp; u64 tried = 0; std::string why;
    if (!found.empty()) {
        std::sort(found.begin(), found.end());
        rc = 2; why = "no violation reproduced in a fresh process";
        for (auto& fd : found) {
            Plan p = gen_plan(seed_of(seed, fd.first));
            Iso a = run_isolated(p), b = run_isolated(p);
            if (!a.bad || !b.bad || a.cls != b.cls || a.hash != b.hash) { std::fprintf(stderr, "index %llu (%s): not repeatable (%s/%s)\n", (unsigned long long)fd.first, fd.second.c_str(), a.cls.c_str(), b.cls.c_str()); continue; }
            auto confirm = [&](const Plan& q) {
                Iso e = run_isolated(q, (replay_out + ".stderr").c_str());
                if (!e.bad || e.cls != a.cls) return false;
                FILE* f = std::fopen(replay_out.c_str(), "w"); if (!f) return false;
                std::fputs(plan_text(q, &e).c_str(), f); std::fclose(f);
                for (int k = 0; k < 2; ++k) { // fresh processes, from the file alone
                    std::fflush(stdout);
                    pid_t c = fork();
                    if (c == 0) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); execl("/proc/self/exe", "sim", "--replay", replay_out.c_str(), static_cast<char*>(nullptr)); _exit(9); }
                    int st; waitpid(c, &st, 0);
                    if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) return false;
                }
                fin = e; finp = q; return true;
            };
            Plan q = minimise(p, a.cls, 25, tried);
            if (confirm(q) || confirm(p)) { rc = 1; why.clear(); break; }
        }
    }
    std::string j = "{";
    auto num = [&](const char* k, double v) { char b[96]; std::snprintf(b, sizeof b, "\"%s\":%.17g,", k, v); j += b; };
    num("runs", double(tot.runs)); num("foreign_runs", double(tot.foreign)); num("steps", double(tot.steps)); num("yield_points", double(tot.yields)); num("preemptions", double(tot.switches));
    num("faulted_runs", double(tot.faulted_runs)); num("multi_task_runs", double(tot.multi_runs)); num("search_s", t_search); num("runs_per_hour", tot.runs / std::max(t_search, 1e-3) * 3600);
    num("distinct_transitions", double(count_bits(shm->trans))); num("distinct_interleavings", double(count_bits(shm->inter))); num("distinct_plans", double(count_bits(shm->plans)));
    num("minimiser_candidates", double(tried)); num("workers", nw); num("base_seed", double(seed));
    j += "\"faults\":{"; for (int k = 0; k < NPT; ++k) { char b[96]; std::snprintf(b, sizeof b, "\"%s\":{\"reached\":%llu,\"fired\":%llu}%s", pt_name[k], (unsigned long long)tot.armed[k], (unsigned long long)tot.fired[k], k + 1 < NPT ? "," : ""); j += b; } j += "},";
    { char b[128]; std::snprintf(b, sizeof b, "\"fault_modes\":{\"before_write\":%llu,\"mid_write\":%llu,\"after_write\":%llu},", (unsigned long long)tot.modes[0], (unsigned long long)tot.modes[1], (unsigned long long)tot.modes[2]); j += b; }
    j += "\"probes\":{"; { bool first = true; for (int k = 0; k < 64; ++k) if (shm->probe_name[k][0]) { char b[128]; std::snprintf(b, sizeof b, "%s\"%s\":%llu", first ? "" : ",", shm->probe_name[k], (unsigned long long)tot.probes[k]); j += b; first = false; } } j += "},";
    j += "\"machines\":["; { bool first = true; for (Machine* m = machines; m; m = m->next) if (eligible(m)) { if (!first) j += ","; json_str(j, m->name); first = false; } } j += "],";
    j += "\"samples\":["; for (u64 i = 0; i < 3; ++i) { if (i) j += ","; json_str(j, plan_text(gen_plan(seed_of(seed, i)), nullptr)); } j += "],";
    j += "\"class\":"; json_str(j, rc == 1 ? fin.cls : ""); j += ",\"message\":"; json_str(j, rc == 1 ? fin.msg : why); j += ",";
    j += "\"replay\":"; json_str(j, rc == 1 ? replay_out : ""); j += "}\n";
    if (!out.empty()) { FILE* f = std::fopen(out.c_str(), "w"); if (f) { std::fputs(j.c_str(), f); std::fclose(f); } }
    std::printf("%s runs=%llu foreign=%llu steps=%llu %.1fs\n", prop->id, (unsigned long long)tot.runs, (unsigned long long)tot.foreign, (unsigned long long)tot.steps, t_search);
    if (rc == 1) {
        std::printf("FOUND %s: %s (seed %llu, %zu tasks)\n", fin.cls.c_str(), fin.msg.c_str(), (unsigned long long)finp.seed, finp.tasks.size());
        std::fputs(plan_text(finp, &fin).c_str(), stdout);
    } else if (rc) std::printf("ERROR %s\n", why.c_str());
    return rc;
}
