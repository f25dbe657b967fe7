// Tasks that are preempted between two machine instructions. One task runs an operation with the processor's trap flag set;
// after a planned number of instructions the trap handler runs operations of other tasks to their end (at one or several
// places), then the first task goes on. Readers share options that lie on write-protected pages, writers have options of
// their own. Every operation has to give what it gives when it runs alone, so nothing may be kept outside the options.
// The operations are on types that do not call back into the simulator and do not allocate.
#include "mini.hpp"
#include <array>
#include <complex>
#include <cfenv>
#include <csignal>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <tuple>
#include <ucontext.h>

extern "C" { void sim_tf_on(); void sim_tf_off(); }
#if defined(__x86_64__)
asm(".text\n.globl sim_tf_on\n.type sim_tf_on,@function\nsim_tf_on:\n pushfq\n orq $0x100,(%rsp)\n popfq\n ret\n.size sim_tf_on,.-sim_tf_on\n"
    ".globl sim_tf_off\n.type sim_tf_off,@function\nsim_tf_off:\n pushfq\n andq $~0x100,(%rsp)\n popfq\n ret\n.size sim_tf_off,.-sim_tf_off\n");
#else
void sim_tf_on() {} void sim_tf_off() {}
#endif

namespace sim {
// the floating-point environment of a task: rounding, flush to zero, traps
static u32 st_env_of(int k) { return 0x1f80u | (u32(k) & 3u) << 13 | (k & 4 ? 0x8000u : 0u) | (k & 8 ? 0x40u : 0u); }
#if defined(__x86_64__)
static u32 st_getenv() { u32 v; asm volatile("stmxcsr %0" : "=m"(v)); return v; }
static void st_setenv(u32 v) { asm volatile("ldmxcsr %0" : : "m"(v) : "memory"); }
#else
static u32 st_getenv() { return 0; } static void st_setenv(u32) {}
#endif
using PFn = u64 (*)(const void* shared, int k);
struct Stop { long at; PFn fn; const void* shared; int k; u64 got; bool ran; int env; };
static u32 st_flags; // of the floating-point environment, that an operation raised or changed
static u64 st_run(PFn f, const void* shared, int k, int env) {
    if (env < 0) return f(shared, k);
    const u32 old = st_getenv(), mine = st_env_of(env);
    st_setenv(mine); const u64 r = f(shared, k); st_flags = st_flags | (st_getenv() ^ mine); st_setenv(old);
    return r;
}
static Stop st_stop[3]; static int st_n, st_next; static volatile long st_count; static volatile bool st_on;
static void on_trap(int, siginfo_t*, void* u) {
    if (!st_on) return;
    st_count = st_count + 1;
    while (st_next < st_n && st_stop[st_next].at <= st_count) { Stop& s = st_stop[st_next++]; s.got = st_run(s.fn, s.shared, s.k, s.env); s.ran = true; }
#if defined(__x86_64__)
    if (st_next >= st_n) static_cast<ucontext_t*>(u)->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
#endif
}
static u64 stepped(PFn f, const void* shared, int k, int env) {
    st_count = 0; st_next = 0; st_on = true;
    sim_tf_on(); const u64 r = st_run(f, shared, k, env); sim_tf_off();
    st_on = false;
    return r;
}

// ---------------------------------------------------------------- the types
struct StS { int i; float f; bool b; int fa() { return 1; } int fb() { return 2; } };
enum class StE : unsigned char { a, b, c };
enum class StN : int { a = 5, b = 6, SENTINEL = 99 };
enum StW : unsigned short { stw_a, stw_b = 300 };
struct StPoly { int v; explicit StPoly(int x = 0) : v(x) {} StPoly(const StPoly&) = default; StPoly& operator=(const StPoly&) = default; virtual ~StPoly() {} virtual int get() const { return v; } };
struct StPad { int v; unsigned short PADDING = 0; unsigned short w; StPad() : v(0), w(0) {} explicit StPad(int x) : v(x), w(u16(x + 1)) {} };
struct StBig { int a, b, c, d, e, f; }; // has a flag
struct StOwn { int v; };
}
template<> struct opt::option_traits<sim::StOwn> {
    static constexpr std::uintmax_t max_level = 3;
    static std::uintmax_t get_level(const sim::StOwn* p) noexcept { return std::uintmax_t(p->v) - 1000u; }
    static void set_level(sim::StOwn* p, std::uintmax_t l) noexcept { p->v = int(1000 + l); }
};
namespace sim {
struct StSt { int v; };
constexpr bool operator==(const StSt& a, const StSt& b) { return a.v == b.v; }
}
template<> struct opt::sentinel_option_traits<sim::StSt> { static constexpr sim::StSt sentinel_value{-77}; };
namespace sim {
static int st_ints[4] = {10, 20, 30, 40};
constexpr u32 SC_CMP = 1, SC_ORD = 2, SC_HASH = 4, SC_COPY = 8;
template<class T> struct SV;
#define SIM_SV(CAPS, MAKE, CODE, ...) template<> struct SV<__VA_ARGS__> { using T = __VA_ARGS__; static constexpr u32 caps = CAPS; static T make(int k) { (void)k; return MAKE; } static u64 code(const std::remove_reference_t<T>& x) { return u64((long long)(CODE)); } }
SIM_SV(15, k & 1, x, bool);
SIM_SV(15, k * 7, x, int);
SIM_SV(15, k ? 'b' : 'a', x, char);
SIM_SV(15, float(k) * 1.5f, x * 2.f, float);
SIM_SV(15, double(k) * 1.5, x * 2., double);
SIM_SV(15, st_ints + k % 4, x - st_ints, int*);
SIM_SV(SC_CMP | SC_COPY, k & 1 ? &StS::i : nullptr, x == &StS::i, int StS::*);
SIM_SV(SC_CMP | SC_COPY, k & 1 ? &StS::fa : &StS::fb, x == &StS::fa, int (StS::*)());
SIM_SV(15, StE(k % 3), x, StE);
SIM_SV(15, k & 1 ? StN::a : StN::b, x, StN);
SIM_SV(15, k & 1 ? stw_a : stw_b, x, StW);
SIM_SV(SC_CMP | SC_COPY, (std::complex<float>(float(k), 2.f)), x.real() * 8 + x.imag(), std::complex<float>);
SIM_SV(15, std::string_view("abc").substr(std::size_t(k % 3)), x.size(), std::string_view);
SIM_SV(SC_COPY, std::ref(st_ints[k % 4]), &x.get() - st_ints, std::reference_wrapper<int>);
SIM_SV(SC_CMP | SC_ORD | SC_COPY, (std::pair<int, bool>(k, k & 1)), x.first * 2 + x.second, std::pair<int, bool>);
SIM_SV(SC_CMP | SC_ORD | SC_COPY, (std::tuple<float, int>(float(k), k)), std::get<0>(x) * 16 + float(std::get<1>(x)), std::tuple<float, int>);
SIM_SV(SC_CMP | SC_ORD | SC_COPY, (std::array<bool, 2>{bool(k & 1), bool(k & 2)}), x[0] * 2 + x[1], std::array<bool, 2>);
SIM_SV(15, std::string(k & 1 ? "short" : "s"), x.size() * 256 + u64(x[0]), std::string);
SIM_SV(SC_CMP | SC_ORD | SC_HASH, std::unique_ptr<int>(), !x, std::unique_ptr<int>);
SIM_SV(SC_COPY, StPoly(k), x.get(), StPoly);
SIM_SV(SC_COPY, StPad(k), x.v * 64 + x.w, StPad);
SIM_SV(SC_COPY, (StBig{k, k, k, 1, 2, k}), x.a * 16 + x.f, StBig);
SIM_SV(SC_COPY, (StOwn{k}), x.v, StOwn);
SIM_SV(SC_COPY, (StSt{k}), x.v, StSt);
SIM_SV(SC_COPY, (StS{k, 2.f, bool(k & 1)}), x.i * 2 + x.b, StS);
using StSent = opt::sentinel<int, -1, -2>; SIM_SV(SC_COPY, StSent(k), static_cast<const int&>(x), StSent);
using StMem = opt::member<StS, &StS::f>; SIM_SV(SC_COPY, StMem(StS{k, 3.f, true}), static_cast<const StS&>(x).i, StMem);
#if OPTION_USE_BUILTIN_TRAITS
using StEnf = opt::enforce<double>; SIM_SV(SC_COPY, StEnf(double(k)), static_cast<const double&>(x), StEnf);
#endif
SIM_SV(15, k & 1 ? opt::option<bool>(k & 2) : opt::option<bool>(), x.has_value() ? 1 + *x : 0, opt::option<bool>);
SIM_SV(15, k & 1 ? opt::option<int>(k) : opt::option<int>(), x.has_value() ? 1 + *x : 0, opt::option<int>);
SIM_SV(15, k & 1 ? opt::option<float>(float(k)) : opt::option<float>(), x.has_value() ? 1 + int(*x) : 0, opt::option<float>);
SIM_SV(SC_COPY, k & 1 ? opt::option<StS>(StS{k, 1.f, true}) : opt::option<StS>(), x.has_value() ? 1 + x->i : 0, opt::option<StS>);
SIM_SV(SC_COPY, k & 1 ? opt::option<int&>(st_ints[k % 4]) : opt::option<int&>(), x.has_value() ? 1 + (x.ptr_or_null() - st_ints) : 0, opt::option<int&>);
SIM_SV(SC_CMP | SC_ORD | SC_COPY, st_ints[k % 4], &x - st_ints, int&);
SIM_SV(SC_CMP | SC_COPY, st_ints[k % 4], &x - st_ints, const int&);
SIM_SV(SC_CMP, static_cast<int&&>(st_ints[k % 4]), &x - st_ints, int&&);
struct StBase { int v; virtual ~StBase() {} }; struct StSide { int w; virtual ~StSide() {} }; struct StDer : StBase, StSide { explicit StDer(int k) { v = k; w = k + 100; } };
static StDer st_ders[4] = {StDer(1), StDer(2), StDer(3), StDer(4)};
SIM_SV(SC_COPY, st_ders[k % 4], x.w, StSide&);
SIM_SV(SC_CMP | SC_COPY, (std::complex<double>(double(k), 2.)), x.real() * 8 + x.imag(), std::complex<double>);
SIM_SV(SC_CMP | SC_ORD | SC_COPY, (std::pair<char, float>('a', float(k))), float(x.first) + 4 * x.second, std::pair<char, float>);
using StOO = opt::option<opt::option<bool>>; SIM_SV(15, k == 0 ? StOO() : k == 1 ? StOO(opt::option<bool>()) : StOO(opt::option<bool>(k & 1)), x.has_value() ? x->has_value() ? 2 + **x : 1 : 0, StOO);

// what readers share: nothing, two values, one that was emptied again
template<class T> using StC = std::remove_reference_t<T>;
template<class T> struct StShared { opt::option<T> s[4]; };
struct StType {
    std::size_t size; void (*make)(void*); void (*kill)(void*);
    std::vector<PFn> reads, writes;
};
#if defined(__clang__)
#define SIM_OPAQUE __attribute__((noinline, optnone))
#else
#define SIM_OPAQUE __attribute__((noinline, noclone, noipa))
#endif
template<class T> SIM_OPAQUE static const opt::option<T>& st_at(const void* p, int k) { return static_cast<const StShared<T>*>(p)->s[k & 3]; }
template<class T> static u64 st_code(const StC<T>& x);
template<class T> static u64 st_read(const opt::option<T>& o) { return o.has_value() ? 2 + st_code<T>(o.get()) : 1; }
template<class T> static u64 st_code(const StC<T>& x) { if constexpr (std::is_rvalue_reference_v<T>) return u64(&x - st_ints); else return SV<T>::code(x); }
template<class T> static StType st_type() {
    using V = SV<T>; using O = opt::option<T>; using Sh = StShared<T>;
    StType t;
    t.size = sizeof(Sh);
    t.make = [](void* p) { auto* s = ::new (p) Sh; s->s[1].emplace(V::make(1)); s->s[2].emplace(V::make(2)); s->s[3].emplace(V::make(1)); s->s[3].reset(); };
    t.kill = [](void* p) { static_cast<Sh*>(p)->~Sh(); };
    t.reads.push_back([](const void* p, int k) -> u64 { return st_at<T>(p, k).has_value(); });
    t.reads.push_back([](const void* p, int k) -> u64 { return bool(st_at<T>(p, k)) * 2 + (st_at<T>(p, k) == opt::none); });
    t.reads.push_back([](const void* p, int k) -> u64 { return st_read(st_at<T>(p, k)); });
    t.reads.push_back([](const void* p, int k) -> u64 { const auto& o = st_at<T>(p, k); auto* q = o.ptr_or_null(); return q ? 1 + u64(reinterpret_cast<const char*>(q) - static_cast<const char*>(p)) : 0; });
    t.reads.push_back([](const void* p, int k) -> u64 { u64 r = 1; for (auto& x : st_at<T>(p, k)) r = 2 + st_code<T>(x); return r; });
    t.reads.push_back([](const void* p, int k) -> u64 { return st_at<T>(p, k).map([](const StC<T>& x) { return st_code<T>(x); }).value_or(7777u); });
    t.reads.push_back([](const void* p, int k) -> u64 { return st_at<T>(p, k).map_or(u64(7777), [](const StC<T>& x) { return st_code<T>(x); }) * 2 + st_at<T>(p, k).has_value_and([](const StC<T>& x) { return st_code<T>(x) & 1; }); });
    if constexpr (!std::is_reference_v<T>) if constexpr (opt::option_traits<std::remove_cv_t<T>>::max_level > 0)
        t.reads.push_back([](const void* p, int k) -> u64 { using N = std::remove_cv_t<T>; const auto& o = st_at<T>(p, k); return opt::option_traits<N>::get_level(reinterpret_cast<const N*>(&o)) < opt::option_traits<N>::max_level; });
    if constexpr (opt::option_traits<O>::max_level > 0)
        t.reads.push_back([](const void* p, int k) -> u64 { return opt::option_traits<O>::get_level(&st_at<T>(p, k)) < opt::option_traits<O>::max_level; });
    if constexpr (V::caps & SC_CMP) {
        t.reads.push_back([](const void* p, int k) -> u64 { return (st_at<T>(p, k) == st_at<T>(p, k >> 2)) * 2 + (st_at<T>(p, k) != st_at<T>(p, k >> 2)); });
        t.reads.push_back([](const void* p, int k) -> u64 { T v = V::make(1); return (st_at<T>(p, k) == static_cast<const StC<T>&>(v)) * 2 + (static_cast<const StC<T>&>(v) != st_at<T>(p, k)); });
    }
    if constexpr (V::caps & SC_ORD) {
        t.reads.push_back([](const void* p, int k) -> u64 { return (st_at<T>(p, k) < st_at<T>(p, k >> 2)) * 2 + (st_at<T>(p, k) >= st_at<T>(p, k >> 2)); });
        t.reads.push_back([](const void* p, int k) -> u64 { return (st_at<T>(p, k) > st_at<T>(p, k >> 2)) * 2 + (st_at<T>(p, k) <= st_at<T>(p, k >> 2)); });
    }
    if constexpr (V::caps & SC_HASH) t.reads.push_back([](const void* p, int k) -> u64 { return std::hash<O>{}(st_at<T>(p, k)); });
    if constexpr (V::caps & SC_COPY) {
        t.reads.push_back([](const void* p, int k) -> u64 { O c(st_at<T>(p, k)); return st_read(c); });
        t.reads.push_back([](const void* p, int k) -> u64 { return st_code<T>(st_at<T>(p, k).value_or(V::make(3))); });
        t.reads.push_back([](const void* p, int k) -> u64 { return st_read(st_at<T>(p, k).filter([](const StC<T>& x) { return st_code<T>(x) & 1; })); });
        t.reads.push_back([](const void* p, int k) -> u64 { return st_read(st_at<T>(p, k) | st_at<T>(p, k >> 2)); });
        t.reads.push_back([](const void* p, int k) -> u64 { return st_read(st_at<T>(p, k) ^ st_at<T>(p, k >> 2)); });
        t.reads.push_back([](const void* p, int k) -> u64 { return st_read(st_at<T>(p, k) & st_at<T>(p, k >> 2)); });
        t.reads.push_back([](const void* p, int k) -> u64 { auto z = opt::zip(st_at<T>(p, k), st_at<T>(p, k >> 2)); return z.has_value() ? 2 + st_code<T>(std::get<0>(*z)) * 64 + st_code<T>(std::get<1>(*z)) : 1; });
        if constexpr (!std::is_const_v<T>) t.writes.push_back([](const void* p, int k) -> u64 { O c(V::make(k & 3)); c = st_at<T>(p, k >> 2); return st_read(c); });
        if constexpr (!std::is_const_v<T>) t.writes.push_back([](const void* p, int k) -> u64 { O c(st_at<T>(p, k)), d(st_at<T>(p, k >> 2)); c.swap(d); return st_read(c) * 64 + st_read(d); });
        t.writes.push_back([](const void* p, int k) -> u64 { opt::option<O> n(st_at<T>(p, k)); const u64 r = n.has_value() ? 2 + st_read(*n) : 1; n->reset(); const u64 q = n.has_value() * 2 + n->has_value(); n.reset(); return (r * 8 + q) * 2 + n.has_value(); });
    }
    t.writes.push_back([](const void*, int k) -> u64 { O c; const bool a = c.has_value(); c.emplace(V::make(k & 3)); const u64 r = st_read(c); c.reset(); return r * 4 + a * 2 + c.has_value(); });
    t.writes.push_back([](const void*, int k) -> u64 { O c(V::make(k & 3)); O d = c.take(); return st_read(c) * 64 + st_read(d); });
    t.writes.push_back([](const void*, int k) -> u64 { opt::option<O> n; const bool a = n.has_value(); n.emplace(); const bool b = n.has_value(), c = n->has_value(); n->emplace(V::make(k & 3)); const u64 r = st_read(*n); n = opt::none; return r * 16 + a * 8 + b * 4 + c * 2 + n.has_value(); });
    if constexpr (!std::is_const_v<T>) t.writes.push_back([](const void*, int k) -> u64 { O c; c = V::make(k & 3); const u64 r = st_read(c); c = opt::none; return r * 2 + c.has_value(); });
    return t;
}
enum StSet { ST_ALL, ST_FP, ST_REF };
template<StSet S> static const std::vector<StType>& st_types();
template<> const std::vector<StType>& st_types<ST_FP>() {
    static const std::vector<StType> v = {
        st_type<float>(), st_type<double>(), st_type<std::complex<float>>(), st_type<std::complex<double>>(), st_type<std::pair<char, float>>(), st_type<std::tuple<float, int>>(),
        st_type<opt::option<float>>(), st_type<StMem>(),
#if OPTION_USE_BUILTIN_TRAITS
        st_type<StEnf>(),
#endif
    };
    return v;
}
template<> const std::vector<StType>& st_types<ST_REF>() {
    static const std::vector<StType> v = {st_type<int&>(), st_type<const int&>(), st_type<int&&>(), st_type<StSide&>(), st_type<opt::option<int&>>(), st_type<std::reference_wrapper<int>>()};
    return v;
}
template<> const std::vector<StType>& st_types<ST_ALL>() {
    static const std::vector<StType> v = {
        st_type<bool>(), st_type<int>(), st_type<char>(), st_type<float>(), st_type<double>(), st_type<int*>(), st_type<int StS::*>(), st_type<int (StS::*)()>(),
        st_type<StE>(), st_type<StN>(), st_type<StW>(), st_type<std::complex<float>>(), st_type<std::string_view>(), st_type<std::reference_wrapper<int>>(),
        st_type<std::pair<int, bool>>(), st_type<std::tuple<float, int>>(), st_type<std::array<bool, 2>>(), st_type<std::string>(), st_type<std::unique_ptr<int>>(),
        st_type<StPoly>(), st_type<StPad>(), st_type<StBig>(), st_type<StOwn>(), st_type<StSt>(), st_type<StS>(), st_type<StSent>(), st_type<StMem>(),
#if OPTION_USE_BUILTIN_TRAITS
        st_type<StEnf>(),
#endif
        st_type<opt::option<bool>>(), st_type<opt::option<int>>(), st_type<opt::option<float>>(), st_type<opt::option<StS>>(), st_type<opt::option<int&>>(), st_type<StOO>(),
    };
    return v;
}
template<StSet SET> struct StepWorld : MiniWorld<StepWorld<SET>> {
    using typename MiniWorld<StepWorld<SET>>::Op;
    static constexpr int KINDS = 4; // how many types live in one execution
    struct Place { const StType* t; void* p; };
    std::vector<Place> places;
    std::size_t page = 0; int calls = 0;
    void init(int t, const Plan& p) {
        if (t) return;
        struct sigaction sa{}; sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, nullptr);
        auto& ts = st_types<SET>();
        for (int i = 0; i < KINDS; ++i) {
            const StType& y = ts[(p.cfg[0] + u32(i) * (1 + p.cfg[1] % 7)) % ts.size()];
            page = 4096;
            void* m = page_alloc(page); fill_bytes(m, page, cur_fill, u32(i));
            y.make(m); page_protect(m, page, true);
            places.push_back({&y, m});
        }
    }
    void check(int) {}
    void finish() override { for (auto& x : places) { page_protect(x.p, page, false); x.t->kill(x.p); page_free(x.p, page); } places.clear(); }
    static bool works() { // a processor and a kernel that can single-step
        static const bool ok = [] { st_n = 1; st_stop[0] = {3, [](const void*, int) -> u64 { return 5; }, nullptr, 0, 0, false, -1}; stepped([](const void*, int) -> u64 { u64 r = 1; for (volatile int i = 0; i < 9; i = i + 1) r += u64(i); return r; }, nullptr, 0, -1); return st_stop[0].ran && st_stop[0].got == 5; }();
        return ok;
    }
    static PFn pick(const StType& t, bool write, int k) { auto& v = write ? t.writes : t.reads; return v[std::size_t(k) % v.size()]; }
    // the place of a preemption: early ones more often than late ones
    static long place(int v) { return 1 + long(v) % (16l << (v % 7)); }
    void go(const Call& c, bool first_writes, int mode) {
        if (!works()) { probe(41, "single-stepping is not available here"); return; }
        const Place& x = places[std::size_t(c.a(0)) % places.size()];
        PFn f = pick(*x.t, first_writes, c.a(1)); const int k = c.a(1) >> 4;
        Rng r(mix(u64(c.a(2)) << 16 | u64(c.a(3)), u64(c.a(4))));
        if (++calls > 2 && r.below(4)) return; // single-stepping takes its time
        const int n = r.chance(1, 2) ? 1 : 2 + int(r.below(2));
        u64 alone[3];
        long at = 0;
        for (int i = 0; i < n; ++i) {
            at += place(i ? int(r.below(4000)) : c.a(2));
            const Place& y = r.chance(2, 3) ? x : places[r.below(u32(places.size()))];
            const bool w = mode == 2 || (mode == 1 && r.chance(1, 2));
            st_stop[i] = {at, pick(*y.t, w, int(r.below(1000))), y.p, int(r.below(16)), 0, false, SET == ST_FP ? int(r.below(16)) : -1};
        }
        st_n = n;
        const int env = SET == ST_FP ? int(r.below(16)) : -1; st_flags = 0;
        const u64 want = st_run(f, x.p, k, env);
        for (int i = 0; i < n; ++i) alone[i] = st_run(st_stop[i].fn, st_stop[i].shared, st_stop[i].k, st_stop[i].env);
        for (int i = 0; i < n; ++i) st_stop[i].ran = false; st_n = n;
        const u64 got = stepped(f, x.p, k, env);
        int ran = 0;
        for (int i = 0; i < n; ++i) if (st_stop[i].ran) {
            ++ran;
            SIM_CHECK(O_RESULT, st_stop[i].got == alone[i], "interleaved-result", "an operation that ran between two instructions of another task gave a different result (%llx) than alone (%llx)", (unsigned long long)st_stop[i].got, (unsigned long long)alone[i]);
            if (foreign()) return;
        }
        if (ran) probe(40, "preempted between two machine instructions");
        SIM_CHECK(O_RESULT, got == want, "interleaved-result", "an operation that was preempted between two instructions gave a different result (%llx) than alone (%llx)", (unsigned long long)got, (unsigned long long)want);
        SIM_CHECK(O_FPENV, !st_flags, "fp-flags", "an operation changed the floating-point environment of its task (%x)", st_flags);
        log_event(ran);
    }
    static const std::vector<Op>& table() {
        static const std::vector<Op> t = [] {
            st_types<SET>();
            std::vector<Op> v;
            auto add = [&v](const char* n, u32 g, u32 w, void (*f)(StepWorld&, const Call&)) { v.push_back({{n, g, w}, f}); };
            add("readers", G_ACCESS | G_CMP, 10, [](StepWorld& w, const Call& c) { w.go(c, false, 0); });
            add("reader_preempted", G_ACCESS | G_ASSIGN, 8, [](StepWorld& w, const Call& c) { w.go(c, false, 1); });
            add("writer_preempted", G_ASSIGN | G_EMPLACE, 6, [](StepWorld& w, const Call& c) { w.go(c, true, 0); });
            add("writers", G_ASSIGN | G_EMPLACE, 6, [](StepWorld& w, const Call& c) { w.go(c, true, 2); });
            return v;
        }();
        return t;
    }
};
SIM_MINI("instructions", TG_SHARE, 1, StepWorld<ST_ALL>);
SIM_MINI("instructions_fp", TG_FP, 0, StepWorld<ST_FP>);
SIM_MINI("instructions_ref", TG_REF, 0, StepWorld<ST_REF>);
} // namespace sim
