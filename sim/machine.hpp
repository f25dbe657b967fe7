// OptWorld<T>: up to three tasks, each with its own slots holding an opt::option<T>, plus slots that all tasks
// share and only read. Next to every slot the reference model keeps (engaged, value). After every step all slots
// the task can see are compared with the model.
#pragma once
#include "elems.hpp"
#include <algorithm>
#include <cfenv>

#ifndef SIM_GROUPS
#define SIM_GROUPS 0xffffffffu
#endif

namespace sim {
template<class F> Out guarded(F&& f) { return guarded_t<F, opt::bad_access>(static_cast<F&&>(f)); }
template<class T> const void* addr(const T& x) { return static_cast<const void*>(std::addressof(x)); }

#define SIM_DETECT(NAME, EXPR)                                                     \
    template<class T, class = void> inline constexpr bool NAME = false;            \
    template<class T> inline constexpr bool NAME<T, decltype((EXPR), void())> = true
SIM_DETECT(has_eq, std::declval<const T&>() == std::declval<const T&>());
SIM_DETECT(has_lt, std::declval<const T&>() < std::declval<const T&>());
SIM_DETECT(has_le, std::declval<const T&>() <= std::declval<const T&>());
SIM_DETECT(has_ne, std::declval<const T&>() != std::declval<const T&>());
template<class T, class = void> inline constexpr bool has_hash = false;
template<class T> inline constexpr bool has_hash<T, decltype(std::hash<T>{}(std::declval<const T&>()), void())> = std::is_default_constructible_v<std::hash<T>>;

template<class T, class = void> struct SrcOf { using type = void; };
template<class T> struct SrcOf<T, std::enable_if_t<EL<T>::has_src>> { using type = std::remove_cv_t<std::remove_reference_t<decltype(EL<T>::src(0))>>; };

template<class T> inline constexpr bool is_option = false;
template<class T> inline constexpr bool is_option<opt::option<T>> = true;
template<class T> inline constexpr bool is_val_option = false;
template<class T> inline constexpr bool is_val_option<opt::option<T>> = !std::is_reference_v<T>;

template<class T> inline constexpr bool is_fp = std::is_floating_point_v<T>;
template<class T> inline constexpr bool is_fp<std::complex<T>> = true;
template<class T> inline constexpr bool is_fp<opt::option<T>> = is_fp<T>;
struct FpEnv {
    unsigned before, old; int oround; bool closed = false;
    explicit FpEnv(u32 cfg) {
        old = __builtin_ia32_stmxcsr(); oround = std::fegetround();
        std::feclearexcept(FE_ALL_EXCEPT);
        static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
        std::fesetround(modes[cfg % 4]);
        unsigned m = __builtin_ia32_stmxcsr() & ~0x3fu;
        if (cfg & 4) m |= 0x8000u;                       // flush to zero
        if (cfg & 8) m |= 0x0040u;                       // denormals are zero
        if ((cfg & 48) == 48) m &= ~0x1f80u;             // every exception traps
        __builtin_ia32_ldmxcsr(m); before = m;
    }
    unsigned restore() { unsigned now = __builtin_ia32_stmxcsr(); int x = std::fetestexcept(FE_ALL_EXCEPT); std::fesetround(oround); __builtin_ia32_ldmxcsr(old & ~0x3fu); std::feclearexcept(FE_ALL_EXCEPT); closed = true; return now | unsigned(x); }
    void done(bool may_raise) {
        int rnd = std::fegetround(); static const int modes[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
        const int want = modes[before >> 13 & 3];
        unsigned now = restore();
        SIM_CHECK(O_FPENV, (now & ~0x3fu) == (before & ~0x3fu) && rnd == want, "fp-environment", "the operation changed the floating-point environment from %#x to %#x", before, now);
        if (!may_raise) SIM_CHECK(O_FPENV, (now & 0x3fu) == 0, "fp-exception", "the operation raised floating-point exceptions %#x", now & 0x3f);
    }
    ~FpEnv() { if (!closed) restore(); }
};

// moving one never copies
template<class T> inline constexpr bool counts_copies = (EL<T>::tracked || is_plain<T>) && !std::is_same_v<T, TC>;
template<class T> inline constexpr bool counts_copies<opt::option<T>> = counts_copies<std::remove_cv_t<T>> && !std::is_const_v<T>;
template<class T> inline constexpr bool counts_copies<opt::option<T&>> = false;
template<class A, class B> inline constexpr bool counts_copies<std::pair<const A, B>> = false;
template<class T> inline constexpr u32 copy_unit = EL<T>::tracked || is_plain<T> ? 1 : 0;   // copies of elements in one copy
template<class T> inline constexpr u32 copy_unit<opt::option<T>> = copy_unit<std::remove_cv_t<T>>;
template<class T> inline constexpr u32 copy_unit<opt::option<T&>> = 0;
template<class A, class B> inline constexpr u32 copy_unit<std::pair<A, B>> = copy_unit<A> + copy_unit<B>;
template<class... A> inline constexpr u32 copy_unit<std::tuple<A...>> = (0 + ... + copy_unit<A>);
template<class A, std::size_t K> inline constexpr u32 copy_unit<std::array<A, K>> = copy_unit<A> * u32(K);
template<class A> inline constexpr u32 copy_unit<std::vector<A>> = copy_unit<A> * 5;
struct Model { bool eng; int val; };
struct Want { bool eng; int val; u32 os, ov; bool any = false; };

// what a callback saw
struct Seen {
    int calls = 0;
    const void* at = nullptr;
    bool lref = false, cst = false;
    int val = ANY;
    bool opt_eng = true;   // what the option itself claimed during the call
};

// converting target of option_cast, map, and friends
struct Box {
    Tr<32768> b; bool from_rvalue;
    template<class T> explicit Box(const T& x) : b(peek(x)), from_rvalue(false) {}
    template<class T, std::enable_if_t<!std::is_lvalue_reference_v<T> && !std::is_const_v<T> && !std::is_same_v<T, Box>, int> = 0> explicit Box(T&& x) : b(peek(x)), from_rvalue(true) {}
    Box(const Box&) = default; Box(Box&&) = default; Box& operator=(const Box&) = default; Box& operator=(Box&&) = default;
    template<class T> static int peek(const T& x) { Disarm d; return EL<T>::read(x); }
};

template<class T>
struct OptWorld final : World {
    using O = opt::option<T>;
    using V = std::remove_cv_t<T>;
    using E = EL<V>;
    using SrcT = typename SrcOf<V>::type;
    static constexpr bool is_cv = std::is_const_v<T>;
    static constexpr bool copyable = std::is_copy_constructible_v<V>, movable = std::is_move_constructible_v<V>;
    static constexpr bool cassign = std::is_copy_assignable_v<T>, massign = std::is_move_assignable_v<T>;
    static constexpr int K = 3, S = 2, MT = 3, N = E::N;

    struct Cell {
        u8 pre[64];
        alignas(alignof(O) > 16 ? alignof(O) : 16) u8 raw[sizeof(O)];
        u8 post[64];
    };
    struct Share { Cell c[S]; };
    Cell* own = nullptr;
    Share* shared = nullptr;
    bool ro = false;
    Model m[MT * K + S];
    Want w[MT][K];
    bool touched_shared = false;
    int allow[MT]; u32 used[MT];      // copies of contained values the step may make (-1: not judged), and made
    int ntasks = 1;
    u32 fpcfg = 0;

    // slots of a task are numbered 0..K-1, then the shared ones
    static int ix(int t, int k) { return k < K ? t * K + k : MT * K + (k - K); }
    Cell& cell(int t, int k) { return k < K ? own[t * K + k] : shared->c[k - K]; }
    O* mem(int t, int k) { return std::launder(reinterpret_cast<O*>(cell(t, k).raw)); }
    Model& mod(int t, int k) { return m[ix(t, k)]; }

    static void dirty(u8* p, u32 how, const u8* like) {
        if (like && how % 4 == 3) std::memcpy(p, like, sizeof(O));
        else fill_bytes(p, sizeof(O), cur_fill + how, how * 7 + 1);
        asm volatile("" : : "r"(p) : "memory");
    }
    template<class... A> static void put_engaged(void* p, int v) {
        E::args(v, [&](auto&&... x) { ::new (p) O(std::in_place, static_cast<decltype(x)&&>(x)...); });
    }
    static u32 opt_seed(const Plan& p, int k) { return u32(mix(p.cfg[0] + 65536 * p.cfg[1], u64(k) + 17) >> 8); }

    void setup(const Plan& p) override {
        ntasks = std::max(1, int(p.tasks.size())); fpcfg = p.cfg[1];
        own = static_cast<Cell*>(page_alloc(sizeof(Cell) * MT * K));
        shared = static_cast<Share*>(page_alloc(sizeof(Share)));
        for (int t = 0; t < ntasks; ++t) for (int k = 0; k < K + (t == 0 ? S : 0); ++k) {
            Cell& c = cell(t, k);
            std::memset(c.pre, 0xC5, sizeof c.pre); std::memset(c.post, 0xC5, sizeof c.post);
            dirty(c.raw, p.cfg[2] + u32(k), nullptr);
            u32 r = opt_seed(p, ix(t, k));
            Model& d = mod(t, k);
            d.eng = k == K ? true : r % 2 == 0; d.val = int(r / 2 % u32(N));
            if (d.eng) put_engaged(c.raw, d.val); else { ::new (c.raw) O(); d.val = ANY; }
        }
        ro = always_ro() || p.cfg[3] % 2;
        if (ro) page_protect(shared, sizeof(Share), true);
        for (int t = 0; t < ntasks; ++t) { reset_want(t); check_all(t); }
    }
    static bool always_ro() { return strict_const(); }

    void reset_want(int t) { for (int k = 0; k < K; ++k) w[t][k] = Want{mod(t, k).eng, mod(t, k).val, O_OTHER, O_OTHER}; }

    static bool same(int want, int got) { return want == ANY || want == got; }

    void check_one(int t, int k, const Want& x) {
        Cell& c = cell(t, k);
        const O& o = *mem(t, k);
        bool e = o.has_value();
        if (e != x.eng && !x.any) { violation(x.os, "state", "slot %d is %s, expected %s", k, e ? "engaged" : "empty", x.eng ? "engaged" : "empty"); return; }
        int v = ANY;
        if (e) {
            if (foreign()) return;
            v = E::read(o.get_unchecked());
            SIM_CHECK(x.ov | O_VALUE, v != BAD, "garbage", "slot %d is engaged but does not hold any value that was ever stored", k);
            SIM_CHECK(x.ov, same(x.val, v), "value", "slot %d holds value %d, expected %d", k, v, x.val);
        } else if constexpr (E::tracked) {
            SIM_CHECK(O_LIFE, led_in_range(c.raw, sizeof c.raw) == 0, "live-in-empty", "slot %d is empty but an object is still alive in it", k);
        }
        mod(t, k) = Model{e, v};
        log_event(mix(u64(k) * 2 + e, u64(v + 5)));
    }
    void check_canary(const Cell& c) {
        for (u8 b : c.pre) if (b != 0xC5) { violation(O_BYTES, "write-outside", "a byte in front of the option was overwritten"); return; }
        for (u8 b : c.post) if (b != 0xC5) { violation(O_BYTES, "write-outside", "a byte behind the option was overwritten"); return; }
    }
    void check_all(int t) {
        Disarm d;
        for (int k = 0; k < K; ++k) { check_one(t, k, w[t][k]); check_canary(cell(t, k)); if (foreign()) return; }
        for (int k = K; k < K + S; ++k) { Model x = mod(t, k); check_one(t, k, Want{x.eng, x.val, O_OTHER | O_CONST, O_OTHER | O_CONST}); if (foreign()) return; }
    }
    void step(int t, const Step& s) override;
    void finish() override {
        if (ro) page_protect(shared, sizeof(Share), false);
        for (int t = 0; t < ntasks; ++t) for (int k = 0; k < K + (t == 0 ? S : 0); ++k) {
            mem(t, k)->~O();
            if (!foreign()) {
                check_canary(cell(t, k));
                if constexpr (E::tracked) SIM_CHECK(O_LIFE, led_in_range(cell(t, k).raw, sizeof(O)) == 0, "live-after-destroy", "destroying slot %d left an object alive in it", k);
            }
        }
        page_free(own, sizeof(Cell) * MT * K);
        page_free(shared, sizeof(Share));
    }

    // ---------------------------------------------------------------- the environment of one step
    struct Env {
        OptWorld& W; int t; const Step& s;
        int a(int i) const { return s.a[i]; }
        int dst() const { return a(0) % K; }
        int any_src() const { return a(1) % (K + S); }                 // may be the destination, may be shared
        int own_src() const { return a(1) % K; }
        int other_src() const { int k = a(1) % (K + S - 1); return k >= dst() ? k + 1 : k; }  // anything but the destination
        int other_own() const { int k = a(1) % (K - 1); return k >= dst() ? k + 1 : k; }
        int v() const { return a(2) % N; }
        O& o(int k) const { return *W.mem(t, k); }
        const O& co(int k) const { return *W.mem(t, k); }
        Model& m(int k) const { return W.mod(t, k); }
        void want(int k, bool e, int val, u32 ov = O_VALUE) const { W.w[t][k] = Want{e, e ? val : int(ANY), O_STATE, ov}; }
        void want_moved(int k, int val) const { W.w[t][k] = Want{true, val, O_STATE, O_MOVE}; }     // an rvalue source after success
        void want_moved_fail(int k) const { W.w[t][k] = Want{true, ANY, O_FAILKEEP, O_FAILKEEP}; }  // an rvalue source after failure
        void fail_empty(int k) const { W.w[t][k] = Want{false, ANY, O_FAILEMPTY, O_FAILEMPTY}; }
        void fail_keep(int k) const { W.w[t][k] = Want{true, ANY, O_FAILKEEP, O_FAILKEEP}; }
        void anything(int k) const { W.w[t][k] = Want{true, ANY, O_OTHER, O_OTHER, true}; }
        // a failed write: an empty option stays empty, an engaged one engaged
        void failed(int k) const { if (m(k).eng) fail_keep(k); else fail_empty(k); }
        void budget(int n) const { W.allow[t] = n; }
        template<class F> Out run(F&& f) const {
            Out r = W.fp_guard(static_cast<F&&>(f));
            SIM_CHECK(O_EXC, r != Out::bad_access, "bad-access", "bad_access thrown although a value was present");
            return r;
        }
        template<class F> Out run_bad(F&& f) const { return W.fp_guard(static_cast<F&&>(f)); }
        // destroys the option in the slot and dirties its bytes
        void* renew(int k) const {
            Cell& c = W.cell(t, k);
            o(k).~O();
            if constexpr (E::tracked) SIM_CHECK(O_LIFE, led_in_range(c.raw, sizeof(O)) == 0, "live-after-destroy", "the destructor of slot %d left an object alive", k);
            dirty(c.raw, u32(a(4)), W.shared->c[a(4) / 4 % S].raw);
            return c.raw;
        }
        // construction of the option in slot k failed: nothing may be alive there
        void not_built(int k) const {
            Disarm d;
            Cell& c = W.cell(t, k);
            if constexpr (E::tracked) SIM_CHECK(O_LIFE | O_FAILEMPTY, led_in_range(c.raw, sizeof(O)) == 0, "live-after-failed-ctor", "the constructor of an option failed but left an object alive");
            ::new (static_cast<void*>(c.raw)) O();
            want(k, false, ANY);
        }
        int moved(int val, bool assign) const { return strict_move() && !special(val) ? (is_cv ? int(ANY) : E::moved(val, assign)) : int(ANY); }
        // a result of the operation
        void expect(const O& r, bool e, int val, u32 orc = O_RESULT) const {
            Disarm d;
            SIM_CHECK(orc, r.has_value() == e, "result-state", "the result is %s, expected %s", r.has_value() ? "engaged" : "empty", e ? "engaged" : "empty");
            if (foreign() || !e || !r.has_value()) return;
            expect_val(r.get_unchecked(), val, orc);
        }
        void expect_val(const V& r, int val, u32 orc = O_RESULT) const {
            Disarm d;
            int g = E::read(r);
            SIM_CHECK(orc, g != BAD, "result-garbage", "the result is not a value that was ever stored");
            SIM_CHECK(orc, same(val, g), "result-value", "the result holds %d, expected %d", g, val);
            log_event(u64(g + 5) * 31);
        }
        void expect_bool(bool got, bool want_, const char* what, u32 orc = O_RESULT) const {
            log_event(got ? 3 : 4);
            SIM_CHECK(orc, got == want_, "result-bool", "%s is %s, expected %s", what, got ? "true" : "false", want_ ? "true" : "false");
        }
        void expect_addr(const void* p, int k, const char* what) const {
            SIM_CHECK(O_RESULT, p == static_cast<const void*>(std::addressof(co(k).get_unchecked())), "result-address", "%s does not refer to the contained value of slot %d", what, k);
        }
    };
    // Floating-point types: the call runs in an environment chosen by the plan (rounding mode, flush to zero, traps), must
    // not change that environment, and must not raise anything: it only moves and compares bits.
    template<class F> Out fp_guard(F&& f) {
        const u32 before = cur->copies;
        Out r = fp_guard2(static_cast<F&&>(f));
        used[cur->id] += cur->copies - before;
        return r;
    }
    template<class F> Out fp_guard2(F&& f) {
        if constexpr (is_fp<V>) {
            const bool user_fp = table()[cur->step->op % table().size()].info.group & (G_CMP | G_HASH); // the comparison of the value itself may raise
            FpEnv env(user_fp ? 0 : fpcfg);
            Out r = guarded(static_cast<F&&>(f));
            env.done(user_fp);
            return r;
        } else return guarded(static_cast<F&&>(f));
    }

    // ---------------------------------------------------------------- construction
    static void ctor_default(Env& e) { e.budget(0); int d = e.dst(); void* p = e.renew(d); e.run([&] { if (e.a(2) % 3 == 0) ::new (p) O(); else if (e.a(2) % 3 == 1) ::new (p) O{}; else ::new (p) O(opt::none); }); e.want(d, false, ANY); }
    static void ctor_copy_value(Env& e) { e.budget(1);
        int d = e.dst(), v = e.v(); void* p = e.renew(d); const V x = E::make(v);
        Out r = e.run([&] { ::new (p) O(x); });
        if (r == Out::ok) e.want(d, true, v); else e.not_built(d);
        check_src(e, x, v);
    }
    static void check_src(Env&, const V& x, int v) { Disarm d; int g = E::read(x); SIM_CHECK(O_OTHER | O_MOVE, g == v, "lvalue-source", "an lvalue argument was changed from %d to %d", v, g); }
    static void check_moved([[maybe_unused]] Env& e, const V& x, int v, bool assign) { Disarm d; int g = E::read(x), want = strict_move() && !special(v) ? E::moved(v, assign) : int(ANY); SIM_CHECK(O_MOVE, same(want, g), "rvalue-source", "an rvalue argument holds %d afterwards, expected %d", g, want); }
    static void ctor_move_value(Env& e) { e.budget(0);
        int d = e.dst(), v = e.v(); void* p = e.renew(d); V x = E::make(v);
        Out r = e.run([&] { ::new (p) O(std::move(x)); });
        if (r == Out::ok) { e.want(d, true, v); check_moved(e, x, v, false); } else e.not_built(d);
    }
    static void ctor_in_place(Env& e) { e.budget(0);
        int d = e.dst(), v = e.v(); void* p = e.renew(d); Out r{};
        E::args(v, [&](auto&&... x) { r = e.run([&] { ::new (p) O(std::in_place, static_cast<decltype(x)&&>(x)...); }); });
        if (r == Out::ok) e.want(d, true, v); else e.not_built(d);
    }
    static void ctor_args(Env& e) { e.budget(0); // without std::in_place
        int d = e.dst(), v = e.v(); void* p = e.renew(d); Out r{};
        E::args(v, [&](auto&&... x) {
            if constexpr (sizeof...(x) >= 2) r = e.run([&] { ::new (p) O(static_cast<decltype(x)&&>(x)...); });
            else r = e.run([&] { ::new (p) O(opt::make_option<T>(static_cast<decltype(x)&&>(x)...)); });
        });
        if (r == Out::ok) e.want(d, true, v); else e.not_built(d);
    }
    static void ctor_copy(Env& e) { e.budget(1);
        int d = e.dst(), q = e.other_src(); Model x = e.m(q); void* p = e.renew(d); const O& src = e.co(q);
        Out r = e.run([&] { ::new (p) O(src); });
        if (r == Out::ok) e.want(d, x.eng, x.val); else e.not_built(d);
    }
    static void ctor_move(Env& e) { e.budget(0);
        int d = e.dst(), q = e.other_own(); Model x = e.m(q); void* p = e.renew(d); O& src = e.o(q);
        Out r = e.run([&] { ::new (p) O(std::move(src)); });
        if (r == Out::ok) { e.want(d, x.eng, x.val); if (x.eng) e.want_moved(q, e.moved(x.val, false)); }
        else { e.not_built(d); if (x.eng) e.want_moved_fail(q); }
    }
    static void ctor_const_move(Env& e) { e.budget(1); // const rvalue: copies
        int d = e.dst(), q = e.other_src(); Model x = e.m(q); void* p = e.renew(d); const O& src = e.co(q);
        Out r = e.run([&] { ::new (p) O(std::move(src)); });
        if (r == Out::ok) e.want(d, x.eng, x.val); else e.not_built(d);
    }
    static void make_decay(Env& e) { e.budget(e.a(1) % 2 == 0);
        int d = e.dst(), v = e.v(); void* p = e.renew(d); V x = E::make(v); Out r;
        if (e.a(1) % 2) r = e.run([&] { ::new (p) O(opt::make_option(std::move(x))); });
        else { r = e.run([&] { ::new (p) O(opt::make_option(x)); }); check_src(e, x, v); }
        if (r == Out::ok) e.want(d, true, v); else e.not_built(d);
    }
    static void ctor_src(Env& e) { e.budget(0);
        int d = e.dst(), v = e.v(); void* p = e.renew(d); Out r;
        if (e.a(1) % 2) { const auto x = E::src(v); r = e.run([&] { ::new (p) O(x); }); } else { auto x = E::src(v); r = e.run([&] { ::new (p) O(std::move(x)); }); }
        if (r == Out::ok) e.want(d, true, v); else e.not_built(d);
    }
    static void ctor_conv(Env& e) { e.budget(0);
        int d = e.dst(), v = e.v(); void* p = e.renew(d); bool eng = e.a(3) % 3 != 0; Out r;
        opt::option<SrcT> x; if (eng) x.emplace(E::src(v));
        if (e.a(1) % 2) { const auto& y = x; r = e.run([&] { ::new (p) O(y); }); } else r = e.run([&] { ::new (p) O(std::move(x)); });
        if (r == Out::ok) e.want(d, eng, v); else e.not_built(d);
        SIM_CHECK(O_OTHER, x.has_value() == eng, "conv-source", "the source of a converting construction changed state");
    }

    // ---------------------------------------------------------------- assignment
    static void assign_none(Env& e) { e.budget(0); int d = e.dst(); e.run([&] { O& r = (e.o(d) = opt::none); SIM_CHECK(O_RESULT, addr(r) == addr(e.o(d)), "assign-result", "operator= did not return *this"); }); e.want(d, false, ANY); }
    template<class F> static Out asg(Env& e, int d, F&& f) { return e.run([&] { O& r = f(); SIM_CHECK(O_RESULT, addr(r) == addr(e.o(d)), "assign-result", "operator= did not return *this"); }); }
    static void assign_copy_value(Env& e) { e.budget(1);
        int d = e.dst(), v = e.v(); const V x = E::make(v);
        Out r = asg(e, d, [&]() -> O& { return e.o(d) = x; });
        if (r == Out::ok) e.want(d, true, v); else e.failed(d);
        check_src(e, x, v);
    }
    static void assign_move_value(Env& e) { e.budget(0);
        int d = e.dst(), v = e.v(); bool was = e.m(d).eng; V x = E::make(v);
        Out r = asg(e, d, [&]() -> O& { return e.o(d) = std::move(x); });
        if (r == Out::ok) { e.want(d, true, v); check_moved(e, x, v, was); } else e.failed(d);
    }
    static void assign_copy(Env& e) { e.budget(1);
        int d = e.dst(), q = e.any_src(); Model x = e.m(q); const O& src = e.co(q);
        Out r = asg(e, d, [&]() -> O& { return e.o(d) = src; });
        if (r == Out::ok) { if (q != d || true) e.want(d, x.eng, x.val); } else e.failed(d);
    }
    static void assign_move(Env& e) { e.budget(0);
        int d = e.dst(), q = e.own_src(); Model x = e.m(q); bool was = e.m(d).eng; O& src = e.o(q);
        Out r = asg(e, d, [&]() -> O& { return e.o(d) = std::move(src); });
        if (q == d) { if (r == Out::ok) e.want(d, x.eng, self_move_keeps ? x.val : int(ANY)); else e.failed(d); return; }
        if (r == Out::ok) { e.want(d, x.eng, x.val); if (x.eng) e.want_moved(q, e.moved(x.val, was)); }
        else { e.failed(d); if (x.eng) e.want_moved_fail(q); }
    }
    static constexpr bool self_move_keeps = std::is_scalar_v<V> || is_plain<V>;
    static void assign_inner(Env& e) { e.budget(1); // from the value inside of another, or of this very, option
        int d = e.dst(), q = e.any_src(); if (!e.m(q).eng) return; Model x = e.m(q); const T& src = e.co(q).get_unchecked();
        Out r = asg(e, d, [&]() -> O& { return e.o(d) = src; });
        if (r == Out::ok) e.want(d, true, x.val); else e.failed(d);
    }
    static void assign_src(Env& e) { e.budget(0);
        int d = e.dst(), v = e.v(); Out r;
        if (e.a(1) % 2) { const auto x = E::src(v); r = asg(e, d, [&]() -> O& { return e.o(d) = x; }); } else { auto x = E::src(v); r = asg(e, d, [&]() -> O& { return e.o(d) = std::move(x); }); }
        if (r == Out::ok) e.want(d, true, v); else e.failed(d);
    }
    static void assign_conv(Env& e) { e.budget(0);
        int d = e.dst(), v = e.v(); bool eng = e.a(3) % 3 != 0; Out r;
        opt::option<SrcT> x; if (eng) x.emplace(E::src(v));
        if (e.a(1) % 2) { const auto& y = x; r = asg(e, d, [&]() -> O& { return e.o(d) = y; }); } else r = asg(e, d, [&]() -> O& { return e.o(d) = std::move(x); });
        if (r == Out::ok) e.want(d, eng, v); else e.failed(d);
        SIM_CHECK(O_OTHER, x.has_value() == eng, "conv-source", "the source of a converting assignment changed state");
    }

    // ---------------------------------------------------------------- reset, emplace, take, swap
    static void reset(Env& e) { e.budget(0); int d = e.dst(); e.run([&] { e.o(d).reset(); }); e.want(d, false, ANY); }
    static void emplace(Env& e) { e.budget(0);
        int d = e.dst(), v = e.v(); Out r{}; const void* at = nullptr;
        E::args(v, [&](auto&&... x) { r = e.run([&] { at = addr(e.o(d).emplace(static_cast<decltype(x)&&>(x)...)); }); });
        if (r == Out::ok) { e.want(d, true, v); e.expect_addr(at, d, "the reference returned by emplace"); } else e.fail_empty(d);
    }
    static void emplace_copy(Env& e) { e.budget(1);
        int d = e.dst(), q = e.other_src(); if (!e.m(q).eng) return; int v = e.m(q).val; Out r{}; const void* at = nullptr;
        r = e.run([&] { at = addr(e.o(d).emplace(e.co(q).get_unchecked())); });
        if (r == Out::ok) { e.want(d, true, v); e.expect_addr(at, d, "the reference returned by emplace"); } else e.fail_empty(d);
    }
    static void try_emplace(Env& e) { e.budget(0);
        int d = e.dst(), v = e.v(); Model x = e.m(d); Out r{}; const void* at = nullptr;
        E::args(v, [&](auto&&... y) { r = e.run([&] { at = addr(e.o(d).try_emplace(static_cast<decltype(y)&&>(y)...)); }); });
        if (r == Out::ok) { e.want(d, true, x.eng ? x.val : v); e.expect_addr(at, d, "the reference returned by try_emplace"); } else e.failed(d);
    }
    static void take(Env& e) { e.budget(0);
        int d = e.dst(); Model x = e.m(d);
        Out r = e.run([&] { O got = e.o(d).take(); e.expect(got, x.eng, x.val); Disarm q; { O tmp(std::move(got)); e.expect(tmp, x.eng, x.val); } });
        if (r == Out::ok) e.want(d, false, ANY); else e.failed(d);
    }
    static void swap_member(Env& e) { do_swap(e, [](O& a, O& b) { a.swap(b); }); }
    static void swap_free(Env& e) { if (e.a(4) % 2) do_swap(e, [](O& a, O& b) { opt::swap(a, b); }); else do_swap(e, [](O& a, O& b) { using std::swap; swap(a, b); }); }
    template<class F> static void do_swap(Env& e, F f) {
        int d = e.dst(), q = e.own_src(); Model x = e.m(d), y = e.m(q); e.budget(0);
        Out r = e.run([&] { f(e.o(d), e.o(q)); });
        if (d == q) { if (r == Out::ok) e.want(d, x.eng, x.val); else e.failed(d); return; }
        if (r == Out::ok) { e.want(d, y.eng, y.val); e.want(q, x.eng, x.val); }
        else { e.failed(d); e.failed(q); }
    }

    // ---------------------------------------------------------------- without arguments: value initialisation
    static void value_init(Env& e) {
        if constexpr (std::is_default_constructible_v<V> && !std::is_void_v<V>) {
            int zero; { Disarm q; const V z = V(); zero = E::read(z); } if (special(zero)) return;
            int d = e.dst(); Model x = e.m(d); Out r = Out::ok; const void* at = nullptr; e.budget(0);
            switch (e.a(3) % 5) {
            case 0: { void* p = e.renew(d); r = e.run([&] { ::new (p) O(std::in_place); }); if (r == Out::ok) e.want(d, true, zero); else e.not_built(d); return; }
            case 1: { void* p = e.renew(d); r = e.run([&] { ::new (p) O(opt::make_option<T>()); }); if (r == Out::ok) e.want(d, true, zero); else e.not_built(d); return; }
            case 2: r = e.run([&] { at = addr(e.o(d).emplace()); }); if (r == Out::ok) { e.want(d, true, zero); e.expect_addr(at, d, "the reference returned by emplace"); } else e.fail_empty(d); return;
            case 3: r = e.run([&] { at = addr(e.o(d).try_emplace()); }); if (r == Out::ok) { e.want(d, true, x.eng ? x.val : zero); e.expect_addr(at, d, "the reference returned by try_emplace"); } else e.failed(d); return;
            default: if constexpr (copyable) { e.budget(x.eng); e.run([&] { V g = e.co(d).value_or_construct(); e.expect_val(g, x.eng ? x.val : zero); }); } return;
            }
        }
    }

    // ---------------------------------------------------------------- initializer lists
    static void il_ops(Env& e) {
        if constexpr (E::has_il) {
            int d = e.dst(), v = e.v(); Out r{}; const void* at = nullptr; Model x = e.m(d); e.budget(e.a(3) % 5 == 4 && e.a(4) % 2 == 0 && x.eng);
            switch (e.a(3) % 5) {
            case 0: { void* p = e.renew(d); E::il(v, [&](auto l, auto y) { r = e.run([&] { ::new (p) O(std::in_place, l, y); }); }); if (r == Out::ok) e.want(d, true, v); else e.not_built(d); break; }
            case 1: { void* p = e.renew(d); E::il(v, [&](auto l, auto y) { r = e.run([&] { ::new (p) O(opt::make_option<V>(l, y)); }); }); if (r == Out::ok) e.want(d, true, v); else e.not_built(d); break; }
            case 2: E::il(v, [&](auto l, auto y) { r = e.run([&] { at = addr(e.o(d).emplace(l, y)); }); }); if (r == Out::ok) { e.want(d, true, v); e.expect_addr(at, d, "the reference returned by emplace"); } else e.fail_empty(d); break;
            case 3: E::il(v, [&](auto l, auto y) { r = e.run([&] { at = addr(e.o(d).try_emplace(l, y)); }); }); if (r == Out::ok) { e.want(d, true, x.eng ? x.val : v); e.expect_addr(at, d, "the reference returned by try_emplace"); } else e.failed(d); break;
            default: {
                bool mv = e.a(4) % 2;
                E::il(v, [&](auto l, auto y) { r = e.run([&] { if (mv) { V g = std::move(e.o(d)).value_or_construct(l, y); e.expect_val(g, x.eng ? x.val : v); } else { V g = e.co(d).value_or_construct(l, y); e.expect_val(g, x.eng ? x.val : v); } }); });
                if (mv && x.eng) { if (r == Out::ok) e.want_moved(d, e.moved(x.val, false)); else e.want_moved_fail(d); }
            } }
        }
    }

    // ---------------------------------------------------------------- writing through the accessors
    static void write_through(Env& e) {
        if constexpr (cassign && !is_cv) {
            int d = e.dst(), v = e.v(); if (!e.m(d).eng) return; const V x = E::make(v); int kind = e.a(3) % 5;
            Out r = e.run([&] { O& o = e.o(d); switch (kind) { case 0: o.get() = x; break; case 1: *o = x; break; case 2: *o.operator->() = x; break; case 3: o.value() = x; break; default: *o.ptr_or_null() = x; } });
            if (r == Out::ok) e.want(d, true, v); else e.fail_keep(d);
            check_src(e, x, v);
        }
    }
    // changing the inner option of an engaged option of options
    static void inner(Env& e) {
        if constexpr (is_option<V> && !is_cv) {
            using U = typename V::value_type; using EU = EL<std::remove_cv_t<U>>;
            int d = e.dst(), v = e.a(2) % EU::N, q = e.own_src(); if (!e.m(d).eng) return; V& in = e.o(d).get_unchecked(); bool was = e.m(d).val != 0; Out r = Out::ok; int kind = e.a(3) % 7; e.budget(kind == 3 || kind == 4);
            const bool known = e.m(d).val >= 0;
            switch (kind) {
            case 0: r = e.run([&] { in.reset(); }); e.want(d, true, 0); return;
            case 1: r = e.run([&] { in = opt::none; }); e.want(d, true, 0); return;
            case 2: EU::args(v, [&](auto&&... x) { r = e.run([&] { in.emplace(static_cast<decltype(x)&&>(x)...); }); }); if (r == Out::ok) e.want(d, true, v + 1); else e.W.w[e.t][d] = Want{true, 0, O_FAILEMPTY, O_FAILEMPTY}; return;
            case 3: if constexpr (std::is_copy_assignable_v<U> && !is_option<U>) { const U x = EU::make(v); r = e.run([&] { in = x; }); if (r == Out::ok) e.want(d, true, v + 1); else if (was) e.fail_keep(d); else e.W.w[e.t][d] = Want{true, 0, O_FAILEMPTY, O_FAILEMPTY}; } return;
            case 4: if constexpr (std::is_copy_assignable_v<U>) { if (q == d || !e.m(q).eng) return; const V& src = e.co(q).get_unchecked(); int y = e.m(q).val; r = e.run([&] { in = src; }); if (r == Out::ok) e.want(d, true, y); else if (was) e.fail_keep(d); else e.W.w[e.t][d] = Want{true, 0, O_FAILEMPTY, O_FAILEMPTY}; } return;
            case 5: if constexpr (std::is_move_constructible_v<U>) { int y = e.m(d).val; r = e.run([&] { V g = in.take(); Disarm z; int gv = EL<V>::read(g); SIM_CHECK(O_RESULT, same(y, gv) || !known, "result-value", "take of the inner option gave %d, expected %d", gv, y); }); if (r == Out::ok) e.want(d, true, 0); else e.fail_keep(d); } return;
            default: if constexpr (std::is_move_constructible_v<U> && std::is_swappable_v<U>) { if (q == d || !e.m(q).eng) return; V& other = e.o(q).get_unchecked(); int a = e.m(d).val, b = e.m(q).val; r = e.run([&] { in.swap(other); }); if (r == Out::ok) { e.want(d, true, b); e.want(q, true, a); } else { e.fail_keep(d); e.fail_keep(q); } } return;
            }
        }
    }

    // ---------------------------------------------------------------- access
    template<class F> static void with4(int q, O& o, F&& f) {
        switch (q & 3) { case 0: f(o); break; case 1: f(std::as_const(o)); break; case 2: f(std::move(o)); break; default: f(static_cast<const O&&>(o)); }
    }
    template<class F> static void with2(int q, O& o, F&& f) { if (q & 1) f(std::as_const(o)); else f(o); }
    // shared slots only through const access
    static int slot_for(Env& e, int& q) { int k = e.a(0) % (K + S); q = e.a(1) % 4; if (k >= K) q |= 1; return k; }

    template<class R, class Self> static void check_ref(Env& e, R&& r, int k, const char* what) {
        e.expect_addr(addr(r), k, what);
        using C = std::conditional_t<std::is_const_v<std::remove_reference_t<Self>>, const V, T>;
        using X = std::conditional_t<std::is_lvalue_reference_v<Self>, C&, C&&>;
        SIM_CHECK(O_RESULT, (std::is_same_v<R&&, X&&>), "result-category", "%s has the wrong constness or value category", what);
    }
    static void observe(Env& e) { e.budget(0);
        int k = e.a(0) % (K + S); const O& o = e.co(k); Model x = e.m(k);
        bool b0 = false, b1 = false, b2 = false, b3 = false; const void* p = nullptr; const void* q = nullptr;
        e.run([&] { b0 = o.has_value(); b1 = bool(o); b2 = !(o == opt::none); b3 = opt::none != o; p = o.ptr_or_null(); q = k < K ? static_cast<const void*>(e.o(k).ptr_or_null()) : p; });
        e.expect_bool(b0, x.eng, "has_value()"); e.expect_bool(b1, x.eng, "operator bool"); e.expect_bool(b2, x.eng, "!(o == none)"); e.expect_bool(b3, x.eng, "none != o");
        SIM_CHECK(O_RESULT, (p != nullptr) == x.eng && (q != nullptr) == x.eng, "ptr_or_null", "ptr_or_null does not agree with the state");
        if (x.eng) { e.expect_addr(p, k, "ptr_or_null()"); e.expect_addr(q, k, "ptr_or_null()"); }
    }
    static void access(Env& e) { e.budget(0);
        int q, k = slot_for(e, q); if (!e.m(k).eng) return;
        int kind = e.a(3) % 6;
        e.run([&] {
            with4(q, e.o(k), [&](auto&& s) {
                using Self = decltype(s);
                switch (kind) {
                case 0: check_ref<decltype(static_cast<Self>(s).get()), Self>(e, static_cast<Self>(s).get(), k, "get()"); break;
                case 1: check_ref<decltype(*static_cast<Self>(s)), Self>(e, *static_cast<Self>(s), k, "operator*"); break;
                case 2: check_ref<decltype(static_cast<Self>(s).value()), Self>(e, static_cast<Self>(s).value(), k, "value()"); break;
                case 3: check_ref<decltype(static_cast<Self>(s).value_or_throw()), Self>(e, static_cast<Self>(s).value_or_throw(), k, "value_or_throw()"); break;
                case 4: check_ref<decltype(static_cast<Self>(s).get_unchecked()), Self>(e, static_cast<Self>(s).get_unchecked(), k, "get_unchecked()"); break;
                default: {
                    auto* p = s.operator->(); e.expect_addr(p, k, "operator->");
                    SIM_CHECK(O_RESULT, std::is_const_v<std::remove_pointer_t<decltype(p)>> == (is_cv || std::is_const_v<std::remove_reference_t<Self>>), "result-category", "operator-> has the wrong constness");
                } }
            });
        });
    }
    static void value_throws(Env& e) { e.budget(0);
        int q, k = slot_for(e, q); Model x = e.m(k); const void* at = nullptr; bool two = e.a(3) % 2;
        Out r = e.run_bad([&] { with4(q, e.o(k), [&](auto&& s) { using Self = decltype(s); if (two) { auto&& y = static_cast<Self>(s).value(); at = addr(y); } else { auto&& y = static_cast<Self>(s).value_or_throw(); at = addr(y); } }); });
        if (r == Out::injected) return;
        SIM_CHECK(O_EXC | O_RESULT, (r == Out::ok) == x.eng, "bad-access", "value() on an %s option %s", x.eng ? "engaged" : "empty", r == Out::ok ? "did not throw" : "threw bad_access");
        if (r == Out::ok) e.expect_addr(at, k, "value()");
    }
    static void value_or(Env& e) {
        int q, k = slot_for(e, q); Model x = e.m(k); int v = e.v(); bool mv = q >= 2 && k < K && !(q & 1);
        Out r{}; bool cpd = e.a(3) % 2; V d = E::make(v); e.budget(x.eng ? !mv : cpd);
        r = e.run([&] {
            auto use = [&](auto&& s) {
                using Self = decltype(s);
                if (cpd) { V g = static_cast<Self>(s).value_or(std::as_const(d)); e.expect_val(g, x.eng ? x.val : v); }
                else { V g = static_cast<Self>(s).value_or(std::move(d)); e.expect_val(g, x.eng ? x.val : v); }
            };
            if (mv) use(std::move(e.o(k))); else use(e.co(k));
        });
        if (mv && x.eng) { if (r == Out::ok) e.want_moved(k, e.moved(x.val, false)); else e.want_moved_fail(k); }
        if (r == Out::ok && !cpd) { if (x.eng) { Disarm z; int g = E::read(d); SIM_CHECK(O_MOVE, g == v, "default-moved", "value_or moved from a default that was not used"); } else check_moved(e, d, v, false); }
        if (cpd) check_src(e, d, v);
    }
    static void value_or_rv(Env& e) { e.budget(0); // move-only: only the rvalue overload
        int k = e.a(0) % K; Model x = e.m(k); int v = e.v(); V d = E::make(v);
        Out r = e.run([&] { V g = std::move(e.o(k)).value_or(std::move(d)); e.expect_val(g, x.eng ? x.val : v); });
        if (x.eng) { if (r == Out::ok) e.want_moved(k, e.moved(x.val, false)); else e.want_moved_fail(k); }
    }
    static void value_or_construct(Env& e) {
        int q, k = slot_for(e, q); Model x = e.m(k); int v = e.v(); bool mv = k < K && !(q & 1); Out r{};
        E::args(v, [&](auto&&... y) {
            r = e.run([&] {
                if constexpr (copyable) { if (!mv) { V g = e.co(k).value_or_construct(static_cast<decltype(y)&&>(y)...); e.expect_val(g, x.eng ? x.val : v); return; } }
                if (k < K) { mv = true; V g = std::move(e.o(k)).value_or_construct(static_cast<decltype(y)&&>(y)...); e.expect_val(g, x.eng ? x.val : v); }
            });
        });
        e.budget(x.eng && !mv);
        if (mv && x.eng) { if (r == Out::ok) e.want_moved(k, e.moved(x.val, false)); else e.want_moved_fail(k); }
    }
    static void iterate(Env& e) { e.budget(0);
        int q, k = slot_for(e, q); Model x = e.m(k); int n = 0, m2 = 0; const void* at = nullptr;
        e.run([&] {
            with2(q, e.o(k), [&](auto& s) {
                for (auto& y : s) { ++n; at = addr(y); if (n > 3) break; }
                auto b = s.begin(), en = s.end();
                SIM_CHECK(O_RESULT, en - b == std::ptrdiff_t(x.eng), "iter-distance", "end() - begin() is %td", en - b);
                SIM_CHECK(O_RESULT, (b == en) == !x.eng && (b != en) == x.eng, "iter-equal", "begin() == end() does not agree with the state");
                SIM_CHECK(O_RESULT, (b < en) == x.eng && (b <= en) && (en >= b) && (en > b) == x.eng && !(en < b), "iter-order", "iterators are misordered");
                if (x.eng) {
                    auto i = b; SIM_CHECK(O_RESULT, i++ == b && i == en, "iter-step", "it++"); SIM_CHECK(O_RESULT, i-- == en && i == b, "iter-step", "it--");
                    SIM_CHECK(O_RESULT, ++i == en && --i == b, "iter-step", "++it, --it"); i += 1; SIM_CHECK(O_RESULT, i == en, "iter-step", "it += 1"); i -= 1; SIM_CHECK(O_RESULT, i == b, "iter-step", "it -= 1");
                    SIM_CHECK(O_RESULT, b + 1 == en && 1 + b == en && en - 1 == b, "iter-step", "it + 1");
                    i = b; i -= -1; SIM_CHECK(O_RESULT, i == en, "iter-step", "it -= -1"); i += -1; SIM_CHECK(O_RESULT, i == b, "iter-step", "it += -1");
                    SIM_CHECK(O_RESULT, b - -1 == en && en + -1 == b && -1 + en == b && b - en == -1 && en - en == 0, "iter-step", "it - -1");
                    e.expect_addr(addr(*b), k, "*begin()"); e.expect_addr(addr(b[0]), k, "begin()[0]"); e.expect_addr(addr(en[-1]), k, "end()[-1]");
                    e.expect_addr(b.operator->(), k, "begin().operator->");
                    typename O::const_iterator c = b; e.expect_addr(addr(*c), k, "*const_iterator(begin())");
                    for (auto it = b; it != en && m2 < 3; ++it) ++m2;
                }
            });
        });
        SIM_CHECK(O_RESULT, n == int(x.eng) && m2 == n, "iter-count", "iteration visited %d and %d elements of an %s option", n, m2, x.eng ? "engaged" : "empty");
        if (x.eng) e.expect_addr(at, k, "the iterated element");
    }

    // ---------------------------------------------------------------- callbacks
    struct Called { Seen* seen; const O* o; bool consume;
        template<class X> int see(X&& x) const {
            Seen& s = *seen;
            { Disarm d; s.calls++; s.at = addr(x); s.lref = std::is_lvalue_reference_v<X>; s.cst = std::is_const_v<std::remove_reference_t<X>>; s.val = E::read(x); s.opt_eng = o->has_value(); }
            fpoint(PT_CALL);
            int v = s.val;
            if constexpr (!std::is_lvalue_reference_v<X> && !std::is_const_v<std::remove_reference_t<X>> && movable) if (consume) { Disarm d; [[maybe_unused]] V tmp(std::move(x)); }
            return v;
        }
    };
    // the callback was called exactly if it should have been, once, with the contained value, properly qualified
    static void check_seen(Env& e, const Seen& s, int k, int q, Model x, bool call, const char* what) {
        SIM_CHECK(O_CALLBACK, s.calls == int(call), "callback-count", "%s called its function %d times on an %s option", what, s.calls, x.eng ? "engaged" : "empty");
        if (!s.calls || foreign()) return;
        SIM_CHECK(O_CALLBACK, s.at == static_cast<const void*>(std::addressof(e.co(k).get_unchecked())), "callback-argument", "%s did not pass the contained value itself", what);
        SIM_CHECK(O_CALLBACK, s.val == x.val, "callback-value", "%s passed the value %d, expected %d", what, s.val, x.val);
        SIM_CHECK(O_CALLBACK, s.lref == !(q & 2), "callback-category", "%s passed an %s, expected an %s", what, s.lref ? "lvalue" : "rvalue", s.lref ? "rvalue" : "lvalue");
        SIM_CHECK(O_CALLBACK, s.cst == (is_cv || bool(q & 1)), "callback-const", "%s passed a %sconst reference", what, s.cst ? "" : "non-");
        SIM_CHECK(O_CALLBACK, s.opt_eng, "callback-state", "during the call the option was empty");
        log_event(u64(s.val + 9));
    }
    // the option a callback was called on afterwards
    static void after_call(Env& e, int k, int q, Model x, const Seen& s, bool consumed, bool ok) {
        if (k >= K || !x.eng) return;
        if (q == 2 && s.calls && consumed && !is_cv && movable) { if (ok) e.W.w[e.t][k] = Want{true, ANY, O_OTHER, O_OTHER}; else e.W.w[e.t][k] = Want{true, ANY, O_OTHER, O_OTHER}; }
    }
    static void cb_map(Env& e) { e.budget(0);
        int q, k = slot_for(e, q); Model x = e.m(k); Seen s; Called c{&s, &e.co(k), e.a(3) % 2 == 1};
        Out r = e.run([&] { with4(q, e.o(k), [&](auto&& o) { using Self = decltype(o);
            auto g = static_cast<Self>(o).map([&](auto&& y) { return c.see(static_cast<decltype(y)&&>(y)) + 100; });
            static_assert(std::is_same_v<decltype(g), opt::option<int>>);
            Disarm z; SIM_CHECK(O_RESULT, g.has_value() == x.eng, "map-state", "map of an %s option is %s", x.eng ? "engaged" : "empty", g.has_value() ? "engaged" : "empty");
            if (x.eng && g.has_value()) SIM_CHECK(O_RESULT, *g == x.val + 100, "map-value", "map returned %d, expected %d", *g, x.val + 100);
        }); });
        check_seen(e, s, k, q, x, x.eng, "map"); after_call(e, k, q, x, s, c.consume, r == Out::ok);
    }
    static void cb_map_same(Env& e) { e.budget(0); // V -> V, built in place
        int q, k = slot_for(e, q); Model x = e.m(k); Seen s; Called c{&s, &e.co(k), false}; int v = e.v();
        e.run([&] { with4(q, e.o(k), [&](auto&& o) { using Self = decltype(o);
            auto g = static_cast<Self>(o).map([&](auto&& y) { c.see(static_cast<decltype(y)&&>(y)); return E::make(v); });
            e.expect(g, x.eng, v);
        }); });
        check_seen(e, s, k, q, x, x.eng, "map");
    }
    static void cb_and_then(Env& e) { e.budget(0);
        int q, k = slot_for(e, q); Model x = e.m(k); Seen s; Called c{&s, &e.co(k), e.a(3) % 2 == 1}; int v = e.v(); bool some = e.a(3) % 3 != 0;
        Out r = e.run([&] { with4(q, e.o(k), [&](auto&& o) { using Self = decltype(o);
            auto g = static_cast<Self>(o).and_then([&](auto&& y) { c.see(static_cast<decltype(y)&&>(y)); opt::option<V> z; if (some) { Disarm w2; put_emplace(z, v); } return z; });
            static_assert(std::is_same_v<decltype(g), opt::option<V>>);
            expect_v(e, g, x.eng && some, v);
        }); });
        check_seen(e, s, k, q, x, x.eng, "and_then"); after_call(e, k, q, x, s, c.consume, r == Out::ok);
    }
    static void put_emplace(opt::option<V>& z, int v) { E::args(v, [&](auto&&... y) { z.emplace(static_cast<decltype(y)&&>(y)...); }); }
    static void expect_v(Env& e, const opt::option<V>& g, bool eng, int v) {
        Disarm d;
        SIM_CHECK(O_RESULT, g.has_value() == eng, "result-state", "the result is %s, expected %s", g.has_value() ? "engaged" : "empty", eng ? "engaged" : "empty");
        if (eng && g.has_value()) e.expect_val(*g, v);
    }
    static void cb_or_else(Env& e) {
        int k = e.a(0) % (K + S); bool mv = k < K && (e.a(1) & 1); Model x = e.m(k); int calls = 0, v = e.v(); bool some = e.a(3) % 3 != 0;
        auto f = [&] { ++calls; fpoint(PT_CALL); O z; if (some) { Disarm w2; E::args(v, [&](auto&&... y) { z.emplace(static_cast<decltype(y)&&>(y)...); }); } return z; };
        Out r = e.run([&] {
            if constexpr (copyable) if (!mv) { O g = e.co(k).or_else(f); e.expect(g, x.eng || some, x.eng ? x.val : v); return; }
            if (k < K) { mv = true; O g = std::move(e.o(k)).or_else(f); e.expect(g, x.eng || some, x.eng ? x.val : v); } else calls = int(!x.eng);
        });
        e.budget(x.eng && !mv);
        SIM_CHECK(O_CALLBACK, calls == int(!x.eng), "callback-count", "or_else called its function %d times on an %s option", calls, x.eng ? "engaged" : "empty");
        if (mv && x.eng) { if (r == Out::ok) e.want_moved(k, e.moved(x.val, false)); else e.want_moved_fail(k); }
    }
    static void cb_filter(Env& e) {
        int q, k = slot_for(e, q); Model x = e.m(k); Seen s; bool keep = e.a(3) % 2; Called c{&s, &e.co(k), false};
        bool done = false;
        Out r = e.run([&] { with4(q, e.o(k), [&](auto&& o) { using Self = decltype(o);
            if constexpr (copyable || !std::is_const_v<std::remove_reference_t<Self>>) if constexpr (copyable || !std::is_lvalue_reference_v<Self>) {
                done = true;
                O g = static_cast<Self>(o).filter([&](auto&& y) { c.see(static_cast<decltype(y)&&>(y)); return keep; });
                e.expect(g, x.eng && keep, x.val);
            }
        }); });
        if (!done) return;
        e.budget(x.eng && keep && q != 2);
        check_seen(e, s, k, q & 1, x, x.eng, "filter");
        if (q == 2 && k < K && x.eng && s.calls && keep) { if (r == Out::ok) e.want_moved(k, e.moved(x.val, false)); else e.want_moved_fail(k); }
    }
    static void cb_inspect(Env& e) { e.budget(0);
        int q, k = slot_for(e, q); Model x = e.m(k); Seen s; Called c{&s, &e.co(k), e.a(3) % 2 == 1};
        Out r = e.run([&] { with4(q, e.o(k), [&](auto&& o) { using Self = decltype(o);
            auto&& g = static_cast<Self>(o).inspect([&](auto&& y) { c.see(static_cast<decltype(y)&&>(y)); });
            SIM_CHECK(O_RESULT, addr(g) == addr(e.co(k)), "inspect-result", "inspect did not return the option itself");
        }); });
        check_seen(e, s, k, q, x, x.eng, "inspect"); after_call(e, k, q, x, s, c.consume, r == Out::ok);
    }
    static void cb_has_value_and(Env& e) { e.budget(0);
        int q, k = slot_for(e, q); Model x = e.m(k); Seen s; Called c{&s, &e.co(k), e.a(3) % 4 == 1}; bool yes = e.a(3) % 2, g = false;
        Out r = e.run([&] { with4(q, e.o(k), [&](auto&& o) { using Self = decltype(o);
            g = static_cast<Self>(o).has_value_and([&](auto&& y) { c.see(static_cast<decltype(y)&&>(y)); return yes; });
        }); });
        if (r == Out::ok) e.expect_bool(g, x.eng && yes, "has_value_and()");
        check_seen(e, s, k, q, x, x.eng, "has_value_and"); after_call(e, k, q, x, s, c.consume, r == Out::ok);
    }
    static void cb_take_if(Env& e) { e.budget(0);
        int k = e.dst(); Model x = e.m(k); Seen s; Called c{&s, &e.co(k), false}; bool yes = e.a(3) % 2; int nv = e.v(); bool write = false;
        if constexpr (cassign && !is_cv) write = e.a(3) % 4 >= 2;
        bool wrote = false;
        Out r = e.run([&] {
            O g = e.o(k).take_if([&](auto&& y) { c.see(static_cast<decltype(y)&&>(y)); if constexpr (cassign && !is_cv && !std::is_const_v<std::remove_reference_t<decltype(y)>>) if (write) { Disarm d; const V z = E::make(nv); y = z; wrote = true; } return yes; });
            e.expect(g, x.eng && yes, write ? nv : x.val);
        });
        if (r == Out::ok && x.eng && yes) e.want(k, false, ANY);
        else if (r != Out::ok && x.eng && s.calls) e.fail_keep(k);
        else if (wrote) e.want(k, true, nv);
        check_seen(e, s, k, 0, x, x.eng, "take_if");
    }
    static void cb_map_or(Env& e) { e.budget(0);
        int q, k = slot_for(e, q); Model x = e.m(k); Seen s; Called c{&s, &e.co(k), e.a(3) % 2 == 1}; int g = 0;
        Out r = e.run([&] { with4(q, e.o(k), [&](auto&& o) { using Self = decltype(o);
            g = static_cast<Self>(o).map_or(-77, [&](auto&& y) { return c.see(static_cast<decltype(y)&&>(y)) + 100; });
        }); });
        if (r == Out::ok) SIM_CHECK(O_RESULT, g == (x.eng ? x.val + 100 : -77), "map_or-value", "map_or returned %d", g);
        check_seen(e, s, k, q, x, x.eng, "map_or"); after_call(e, k, q, x, s, c.consume, r == Out::ok);
    }
    static void cb_map_or_val(Env& e) { // the default is an object: copied or moved only if used
        int k = e.a(0) % (K + S); Model x = e.m(k); Seen s; Called c{&s, &e.co(k), false}; int v = e.v(), u = e.a(4) % N; V d = E::make(v); bool mv = e.a(3) % 2;
        Out r = e.run([&] {
            auto f = [&](const V& y) { c.see(y); return E::make(u); };
            if constexpr (copyable) if (!mv) { V g = e.co(k).map_or(d, f); e.expect_val(g, x.eng ? u : v); return; }
            mv = true; V g = e.co(k).map_or(std::move(d), f); e.expect_val(g, x.eng ? u : v);
        });
        e.budget(!mv && !x.eng);
        if (!mv || x.eng) check_src(e, d, v); else if (r == Out::ok) check_moved(e, d, v, false);
        check_seen(e, s, k, 1, x, x.eng, "map_or");
    }
    static void cb_map_or_else(Env& e) { e.budget(0);
        int q, k = slot_for(e, q); Model x = e.m(k); Seen s; Called c{&s, &e.co(k), e.a(3) % 2 == 1}; int g = 0, dc = 0;
        Out r = e.run([&] { with4(q, e.o(k), [&](auto&& o) { using Self = decltype(o);
            g = static_cast<Self>(o).map_or_else([&] { ++dc; fpoint(PT_CALL); return -78; }, [&](auto&& y) { return c.see(static_cast<decltype(y)&&>(y)) + 100; });
        }); });
        if (r == Out::ok) SIM_CHECK(O_RESULT, g == (x.eng ? x.val + 100 : -78), "map_or_else-value", "map_or_else returned %d", g);
        SIM_CHECK(O_CALLBACK, dc == int(!x.eng), "callback-count", "map_or_else called its default function %d times on an %s option", dc, x.eng ? "engaged" : "empty");
        check_seen(e, s, k, q, x, x.eng, "map_or_else"); after_call(e, k, q, x, s, c.consume, r == Out::ok);
    }

    // ---------------------------------------------------------------- comparisons and hash
    static int rel(int r) { return r; }
    template<class A, class B> static bool cmp(int op, const A& a, const B& b) {
        if constexpr (has_lt<V> && has_le<V>) switch (op) { case 2: return a < b; case 3: return a <= b; case 4: return a > b; case 5: return a >= b; default: break; }
        if constexpr (has_eq<V> && has_ne<V>) return op & 1 ? a != b : a == b;
        else if constexpr (has_eq<V>) return a == b;
        else return false;
    }
    static constexpr int nrel = has_lt<V> && has_le<V> ? 6 : has_ne<V> ? 2 : 1;
    static bool by_state(int op, bool l, bool r) { switch (op) { case 0: return l == r; case 1: return l != r; case 2: return l < r; case 3: return l <= r; case 4: return l > r; default: return l >= r; } }
    static void check_cmp(Env& e, int op, bool got, bool le, bool re, const T* l, const T* r) {
        Disarm d;
        bool want = le && re ? cmp(op, static_cast<const V&>(*l), static_cast<const V&>(*r)) : by_state(op, le, re);
        static const char* const nm[] = {"==", "!=", "<", "<=", ">", ">="};
        e.expect_bool(got, want, nm[op]);
    }
    static void compare(Env& e) { e.budget(0);
        int x = e.a(0) % (K + S), y = e.a(1) % (K + S), op = e.a(3) % nrel; const O& a = e.co(x); const O& b = e.co(y); bool g = false;
        Out r = e.run([&] { g = cmp(op, a, b); });
        if (r == Out::ok) check_cmp(e, op, g, e.m(x).eng, e.m(y).eng, e.m(x).eng ? std::addressof(a.get_unchecked()) : nullptr, e.m(y).eng ? std::addressof(b.get_unchecked()) : nullptr);
    }
    static void compare_value(Env& e) { e.budget(0);
        int x = e.a(0) % (K + S), op = e.a(3) % nrel; const O& a = e.co(x); const V y = E::make(e.v()); bool g = false, left = e.a(1) % 2;
        Out r = e.run([&] { g = left ? cmp(op, a, y) : cmp(op, y, a); });
        if (r != Out::ok) return;
        const T* p = e.m(x).eng ? std::addressof(a.get_unchecked()) : nullptr; const T* c = std::addressof(y);
        if (left) check_cmp(e, op, g, e.m(x).eng, true, p, c); else check_cmp(e, op, g, true, e.m(x).eng, c, p);
    }
    static void compare_none(Env& e) { e.budget(0);
        int x = e.a(0) % (K + S), op = e.a(3) % 6; const O& a = e.co(x); bool g = false, left = e.a(1) % 2, eng = e.m(x).eng;
        e.run([&] {
            switch (op) {
            case 0: g = left ? a == opt::none : opt::none == a; break; case 1: g = left ? a != opt::none : opt::none != a; break;
            case 2: g = left ? a < opt::none : opt::none < a; break; case 3: g = left ? a <= opt::none : opt::none <= a; break;
            case 4: g = left ? a > opt::none : opt::none > a; break; default: g = left ? a >= opt::none : opt::none >= a; }
        });
        static const char* const nm[] = {"== none", "!= none", "< none", "<= none", "> none", ">= none"};
        e.expect_bool(g, left ? by_state(op, eng, false) : by_state(op, false, eng), nm[op]);
    }
    static void hash(Env& e) { e.budget(0);
        int x = e.a(0) % (K + S), y = e.a(1) % (K + S); const O& a = e.co(x); const O& b = e.co(y); std::size_t h = 0, h2 = 0;
        Out r = e.run([&] { h = std::hash<O>{}(a); h2 = std::hash<O>{}(b); });
        if (r != Out::ok) return;
        Disarm d;
        if (e.m(x).eng) SIM_CHECK(O_RESULT, h == std::hash<V>{}(a.get_unchecked()), "hash", "the hash of an engaged option is not the hash of its value");
        if (e.m(x).eng == e.m(y).eng && (!e.m(x).eng || x == y)) SIM_CHECK(O_RESULT, h == h2, "hash-equal", "equal options hash differently");
    }

    // ---------------------------------------------------------------- |, |=, &, ^
    // an operand: shared or own slot; rvalue only if own
    static void logic(Env& e) {
        int op = e.a(3) % 3; // | & ^
        int x = e.a(0) % (K + S), y = e.a(1) % (K + S);
        bool rx = x < K && (e.a(4) & 1), ry = y < K && (e.a(4) & 2);
        if (x == y) rx = ry = false;
        if (!copyable) { if (x >= K || y >= K || x == y) return; rx = ry = true; }
        if (op == 1) rx = false; // operator& takes its left side by const reference
        Model a = e.m(x), b = e.m(y);
        bool res; int from; // 0: none, 1: left, 2: right
        if (op == 0) { res = a.eng || b.eng; from = a.eng ? 1 : 2; } else if (op == 1) { res = a.eng && b.eng; from = 2; } else { res = a.eng != b.eng; from = a.eng ? 1 : 2; }
        const int val = from == 1 ? a.val : b.val;
        e.budget(res && (from == 1 ? !rx : !ry));
        Out r = e.run([&] {
            auto fin = [&](O g) { e.expect(g, res, val); };
            auto go = [&](auto&& l, auto&& rr) {
                using L = decltype(l); using R = decltype(rr);
                if constexpr (copyable || (!std::is_lvalue_reference_v<L> && !std::is_lvalue_reference_v<R>)) { if (op == 0) fin(static_cast<L>(l) | static_cast<R>(rr)); else if (op == 2) fin(static_cast<L>(l) ^ static_cast<R>(rr)); }
                if constexpr (copyable || !std::is_lvalue_reference_v<R>) if (op == 1) fin(std::as_const(l) & static_cast<R>(rr));
            };
            const O& cx = e.co(x); const O& cy = e.co(y);
            if (rx && ry) go(std::move(e.o(x)), std::move(e.o(y))); else if (rx) go(std::move(e.o(x)), cy); else if (ry) go(cx, std::move(e.o(y))); else go(cx, cy);
        });
        auto side = [&](int k, bool rv, bool chosen, Model was) { if (!rv || !chosen || !was.eng) return; if (r == Out::ok) e.want_moved(k, e.moved(was.val, false)); else e.want_moved_fail(k); };
        // operator& hands its right side on whenever the left one is engaged; otherwise only the chosen side is touched
        side(x, rx, res && from == 1, a); side(y, ry, res && from == 2, b);
    }
    static void or_value(Env& e) {
        int x = e.a(0) % (K + S), v = e.v(); Model a = e.m(x); bool rx = x < K && (e.a(4) & 1); bool rd = e.a(4) & 2; V d = E::make(v); e.budget(a.eng ? !rx : !rd);
        Out r = e.run([&] {
            auto go = [&](auto&& l) { using L = decltype(l); if (rd) { V g = static_cast<L>(l) | std::move(d); e.expect_val(g, a.eng ? a.val : v); } else { V g = static_cast<L>(l) | std::as_const(d); e.expect_val(g, a.eng ? a.val : v); } };
            if (rx) go(std::move(e.o(x))); else go(e.co(x));
        });
        if (rx && a.eng) { if (r == Out::ok) e.want_moved(x, e.moved(a.val, false)); else e.want_moved_fail(x); }
        if (!rd || a.eng) check_src(e, d, v); else if (r == Out::ok) check_moved(e, d, v, false);
    }
    static void or_assign(Env& e) {
        int d = e.dst(), q = e.any_src(), v = e.v(); Model x = e.m(d), y = e.m(q); int kind = e.a(3) % 5; Out r; V val = E::make(v); e.budget((kind == 0 || kind == 2) && !x.eng);
        switch (kind) {
        case 0: r = asg(e, d, [&]() -> O& { return e.o(d) |= e.co(q); }); break;
        case 1: if (q >= K || q == d) return; r = asg(e, d, [&]() -> O& { return e.o(d) |= std::move(e.o(q)); }); if (!x.eng && y.eng) { if (r == Out::ok) e.want_moved(q, e.moved(y.val, false)); else e.want_moved_fail(q); } break;
        case 2: r = asg(e, d, [&]() -> O& { return e.o(d) |= std::as_const(val); }); y = {true, v}; check_src(e, val, v); break;
        case 3: r = asg(e, d, [&]() -> O& { return e.o(d) |= std::move(val); }); y = {true, v}; if (x.eng) check_src(e, val, v); else if (r == Out::ok) check_moved(e, val, v, false); break;
        default: r = asg(e, d, [&]() -> O& { return e.o(d) |= opt::none; }); y = {false, ANY};
        }
        if (r == Out::ok) { if (!x.eng) e.want(d, y.eng, y.val); } else e.failed(d);
    }

    // ---------------------------------------------------------------- casts
    static void cast(Env& e) { e.budget(0);
        int x = e.a(0) % (K + S); Model a = e.m(x); bool rv = x < K && (e.a(4) & 1);
        Out r = e.run([&] {
            opt::option<Box> g = rv ? opt::option_cast<Box>(std::move(e.o(x))) : opt::option_cast<Box>(e.co(x));
            Disarm d;
            SIM_CHECK(O_RESULT, g.has_value() == a.eng, "cast-state", "option_cast of an %s option is %s", a.eng ? "engaged" : "empty", g.has_value() ? "engaged" : "empty");
            if (g.has_value() && a.eng) { SIM_CHECK(O_RESULT, g->b.look("a read") == a.val, "cast-value", "option_cast changed the value"); SIM_CHECK(O_MOVE | O_RESULT, g->from_rvalue == (rv && !is_cv), "cast-category", "option_cast did not forward the value category"); }
        });
        (void)r;
    }
    static void as_option(Env& e) {
        if constexpr (std::is_trivially_copyable_v<V> && (opt::option_traits<V>::max_level > 0) && !is_cv) {
            int d = e.dst(), v = e.v(); const V x = E::make(v);
            Out r = e.run([&] { O g = opt::as_option(x); e.expect(g, true, v); if constexpr (massign) e.o(d) = std::move(g); });
            if (r == Out::ok) { if constexpr (massign) e.want(d, true, v); } else e.failed(d);
            // an object that is in an empty state becomes an empty option
            if constexpr (std::is_same_v<V, bool> || std::is_same_v<V, EUnscoped>) return; // such an object cannot be read
            V y = E::make(v); opt::option_traits<V>::set_level(std::addressof(y), 0);
            e.run([&] { O g = opt::as_option(y); e.expect(g, false, ANY); });
        }
    }

    struct Op { OpInfo info; void (*fn)(Env&); };
    static const std::vector<Op>& table() {
        static const std::vector<Op> t = [] {
            std::vector<Op> v;
            [[maybe_unused]] auto add = [&](const char* n, u32 g, u32 wt, void (*fn)(Env&)) { v.push_back(Op{OpInfo{n, g, wt}, fn}); };
            constexpr u32 G = SIM_GROUPS;
            if constexpr ((G & G_CTOR) != 0) {
                add("ctor_default", G_CTOR, 1, ctor_default); add("ctor_in_place", G_CTOR, 2, ctor_in_place); add("ctor_args", G_CTOR, 1, ctor_args);
                if constexpr (copyable) { add("ctor_copy_value", G_CTOR, 2, ctor_copy_value); add("ctor_copy", G_CTOR, 3, ctor_copy); }
                if constexpr (copyable && std::is_copy_constructible_v<O>) add("ctor_const_move", G_CTOR, 1, ctor_const_move);
                if constexpr (movable) { add("ctor_move_value", G_CTOR, 2, ctor_move_value); add("ctor_move", G_CTOR, 3, ctor_move); if constexpr (!is_cv) add("make_option", G_CTOR, 1, make_decay_or_move); }
            }
            if constexpr ((G & G_CONV) != 0 && E::has_src) { add("ctor_src", G_CONV, 2, ctor_src); add("ctor_conv", G_CONV, 2, ctor_conv); if constexpr (cassign || massign) { add("assign_src", G_CONV, 2, assign_src); add("assign_conv", G_CONV, 3, assign_conv); } }
            if constexpr ((G & G_ASSIGN) != 0) {
                add("assign_none", G_ASSIGN, 1, assign_none);
                if constexpr (cassign && copyable) { add("assign_copy_value", G_ASSIGN, 3, assign_copy_value); add("assign_copy", G_ASSIGN, 3, assign_copy); add("assign_inner", G_ASSIGN, 1, assign_inner); }
                if constexpr (massign && movable) { add("assign_move_value", G_ASSIGN, 3, assign_move_value); add("assign_move", G_ASSIGN, 3, assign_move); }
            }
            if constexpr ((G & G_RESET) != 0) add("reset", G_RESET, 2, reset);
            if constexpr ((G & G_EMPLACE) != 0) { add("emplace", G_EMPLACE, 3, emplace); add("try_emplace", G_EMPLACE, 2, try_emplace); if constexpr (copyable) add("emplace_copy", G_EMPLACE, 1, emplace_copy); if constexpr (std::is_default_constructible_v<V>) add("value_init", G_EMPLACE, 2, value_init); }
            if constexpr ((G & G_TAKE) != 0 && movable) add("take", G_TAKE, 2, take);
            if constexpr ((G & G_SWAP) != 0 && movable && std::is_swappable_v<T>) { add("swap_member", G_SWAP, 2, swap_member); add("swap_free", G_SWAP, 1, swap_free); }
            if constexpr ((G & G_ACCESS) != 0) {
                add("observe", G_ACCESS, 2, observe); add("access", G_ACCESS, 4, access); add("value_throws", G_ACCESS, 2, value_throws);
                if constexpr (copyable) add("value_or", G_ACCESS, 2, value_or); else if constexpr (movable && !is_cv) add("value_or", G_ACCESS, 2, value_or_rv);
                if constexpr (copyable || (movable && !is_cv)) add("value_or_construct", G_ACCESS, 2, value_or_construct);
            }
            if constexpr ((G & G_ACCESS) != 0 && cassign && !is_cv) add("write_through", G_ACCESS, 2, write_through);
            if constexpr ((G & G_SPECIAL) != 0 && is_val_option<V>) add("inner", G_SPECIAL, 6, inner);
            if constexpr ((G & G_EMPLACE) != 0 && E::has_il) add("initializer_list", G_EMPLACE, 4, il_ops);
            if constexpr ((G & G_ITER) != 0) add("iterate", G_ITER, 2, iterate);
            if constexpr ((G & G_CALLBACK) != 0) {
                add("map", G_CALLBACK, 2, cb_map); add("inspect", G_CALLBACK, 2, cb_inspect); add("has_value_and", G_CALLBACK, 2, cb_has_value_and);
                add("map_or", G_CALLBACK, 2, cb_map_or); add("map_or_else", G_CALLBACK, 2, cb_map_or_else);
                if constexpr (movable) { add("filter", G_CALLBACK, 2, cb_filter); add("take_if", G_CALLBACK, 2, cb_take_if); add("or_else", G_CALLBACK, 2, cb_or_else); add("and_then", G_CALLBACK, 2, cb_and_then); add("map_or_value", G_CALLBACK, 1, cb_map_or_val); }
                if constexpr (!is_cv) add("map_same", G_CALLBACK, 2, cb_map_same);
            }
            if constexpr ((G & G_CMP) != 0) { add("compare_none", G_CMP, 2, compare_none); if constexpr (has_eq<V> && E::comparable) { add("compare", G_CMP, 4, compare); if constexpr (!is_option<V>) add("compare_value", G_CMP, 3, compare_value); } }
            if constexpr ((G & G_HASH) != 0 && has_hash<V>) add("hash", G_HASH, 2, hash);
            if constexpr ((G & G_LOGIC) != 0 && movable && !is_cv) { add("logic", G_LOGIC, 6, logic); if constexpr (copyable && !is_option<V>) add("or_value", G_LOGIC, 2, or_value); if constexpr (massign && cassign && copyable) add("or_assign", G_LOGIC, 3, or_assign); }
            if constexpr ((G & G_MISC) != 0) { if constexpr (!is_cv) add("option_cast", G_MISC, 1, cast); if constexpr (std::is_trivially_copyable_v<V>) add("as_option", G_MISC, 1, as_option); }
            return v;
        }();
        return t;
    }
    static void make_decay_or_move(Env& e) { if constexpr (copyable) make_decay(e); else { int d = e.dst(), v = e.v(); void* p = e.renew(d); V x = E::make(v); Out r = e.run([&] { ::new (p) O(opt::make_option(std::move(x))); }); if (r == Out::ok) e.want(d, true, v); else e.not_built(d); } }
    static const std::vector<OpInfo>& infos() { static const std::vector<OpInfo> v = [] { std::vector<OpInfo> r; for (auto& o : table()) r.push_back(o.info); return r; }(); return v; }
    static World* create() { return new OptWorld; }
};
template<class T>
void OptWorld<T>::step(int t, const Step& s) {
    reset_want(t);
    allow[t] = -1; used[t] = 0;
    u64 key = mix(s.op, 0);
    for (int k = 0; k < K; ++k) key = mix(key, u64(mod(t, k).eng) * 4 + u64(special(mod(t, k).val) ? 1 : 0));
    Env e{*this, t, s};
    table()[s.op % table().size()].fn(e);
    if (foreign()) return;
    if constexpr (counts_copies<V> && !is_cv) SIM_CHECK(O_MOVE, allow[t] < 0 || used[t] <= u32(allow[t]) * copy_unit<V>, "copies", "the operation made %u copies of contained values where %d are needed", used[t], allow[t]);
    check_all(t);
    note_transition(mix(key, (u64(cur->fired_at) << 3) ^ u64(cur->fired ? s.f.mode + 1 : 0)) ^ u64(reinterpret_cast<std::uintptr_t>(&table)));
}
template<class T> struct RegisterOpt { Register r; RegisterOpt(const char* n, u32 tags, u32 wt) : r(n, tags, wt, &OptWorld<T>::infos, &OptWorld<T>::create) {} };
#define SIM_CAT2(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT2(a, b)
#define SIM_OPT(NAME, TAGS, WEIGHT, ...) static ::sim::RegisterOpt<__VA_ARGS__> SIM_CAT(reg_, __COUNTER__)(NAME, TAGS, WEIGHT)
} // namespace sim
