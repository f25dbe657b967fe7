// Everything std::invoke can call, as a callback; options of different types compared with, converted to and assigned
// from one another.
#include "mini.hpp"
namespace sim {
struct CallObj {
    TF x; int n;
    explicit CallObj(int v) : x(v), n(v) {}
    CallObj(const CallObj& o) : x(o.x), n(o.n) {}
    CallObj(CallObj&& o) : x(std::move(o.x)), n(o.n) {}
    CallObj& operator=(const CallObj& o) { x = o.x; n = o.n; return *this; }
    CallObj& operator=(CallObj&& o) { x = std::move(o.x); n = o.n; return *this; }
    int twice() const { fpoint(PT_CALL); return 2 * n; }
    bool even() const { fpoint(PT_CALL); return n % 2 == 0; }
    bool even_mut() { fpoint(PT_CALL); return n % 2 == 0; }
    void touch() { fpoint(PT_CALL); n += 10; }
    opt::option<TF> part() const { fpoint(PT_CALL); if (n % 2) return opt::none; return opt::option<TF>(x); }
    opt::option<int&> part_ref() { fpoint(PT_CALL); return opt::option<int&>(n); }
    TF give() && { fpoint(PT_CALL); return std::move(x); }
    int by_lref() & { return 1; }
    int by_cref() const& { return 2; }
    int by_rref() && { return 3; }
    int by_crref() const&& { return 4; }
};
struct Fixed { // cannot be copied or moved: only an elided construction works
    Tr<131072> b; explicit Fixed(int v) : b(v) {}
    Fixed(const Fixed&) = delete; Fixed& operator=(const Fixed&) = delete;
};
struct Quad { // an overloaded call operator for every category of the functor itself and of its argument
    int* log; int n;
    int operator()(CallObj&) & { *log = 1; return n; }
    int operator()(const CallObj&) & { *log = 2; return n; }
    int operator()(CallObj&&) & { *log = 3; return n; }
    int operator()(const CallObj&&) & { *log = 4; return n; }
    int operator()(CallObj&) && { *log = 11; return n; }
    int operator()(const CallObj&) && { *log = 12; return n; }
    int operator()(CallObj&&) && { *log = 13; return n; }
    int operator()(const CallObj&&) && { *log = 14; return n; }
    int operator()(CallObj&) const& { *log = 21; return n; }
    int operator()(const CallObj&) const& { *log = 22; return n; }
    int operator()(CallObj&&) const& { *log = 23; return n; }
    int operator()(const CallObj&&) const& { *log = 24; return n; }
};
struct Explicit { bool v; explicit operator bool() const { return v; } }; // what a predicate may return
// two types that can be made from one another and swapped with one another
struct HB;
struct HA { Tr<524288> b; explicit HA(int v) : b(v) {} HA(const HA& o) : b(o.b) {} HA(HA&& o) : b(std::move(o.b)) {} HA(HB&& o); };
struct HB { int pad = 1; Tr<524288> b; explicit HB(int v) : b(v) {} HB(const HB& o) : b(o.b) {} HB(HB&& o) : b(std::move(o.b)) {} HB(HA&& o) : b(Src{o.b.look("conversion")}) { o.b.gone(); } };
inline HA::HA(HB&& o) : b(Src{o.b.look("conversion")}) { o.b.gone(); }
inline void swap_bodies(Tr<524288>& x, Tr<524288>& y) { int a = x.look("swap"), c = y.look("swap"); if (point(PT_SWAP)) { if (fault_mode() == 1) x.raw(TORN); if (fault_mode() == 2) { x.raw(c); y.raw(a); } raise(); } x.raw(c); yield_point(); y.raw(a); }
inline void swap(HA& x, HB& y) { swap_bodies(x.b, y.b); }
inline void swap(HB& x, HA& y) { swap_bodies(x.b, y.b); }
struct Base { int b; explicit Base(int v) : b(v) {} virtual ~Base() {} };
struct Derived : Base { Tr<262144> t; explicit Derived(int v) : Base(v), t(v) {} };
template<class X, class Y, class = void> struct has_swap : std::false_type {};
template<class X, class Y> struct has_swap<X, Y, std::void_t<decltype(opt::swap(std::declval<X&>(), std::declval<Y&>()))>> : std::true_type {};
static int fn_twice(const CallObj& o) { fpoint(PT_CALL); return 2 * o.n; }
static bool fn_even(const CallObj& o) { fpoint(PT_CALL); return o.n % 2 == 0; }
static int fn_default() { fpoint(PT_CALL); return -9; }

struct CallWorld final : MiniWorld<CallWorld> {
    using Op = MiniWorld<CallWorld>::Op;
    static constexpr int K = 2;
    struct T {
        opt::option<CallObj> o[K]; int m[K] = {-1, -1};             // CallObj, by value
        CallObj* tgt[K] = {}; opt::option<CallObj*> p; opt::option<std::reference_wrapper<CallObj>> r; opt::option<std::unique_ptr<CallObj>> u; int mp = -1, mr = -1, mu = -1;
        opt::option<int> i; opt::option<short> s; opt::option<long> l; opt::option<const int> ci; int mi = -1, ms = -1, ml = -1;
        opt::option<std::string> str; int mstr = -1;
        opt::option<std::unique_ptr<Base>> up; int mup = -1;   // -2: a null pointer
        opt::option<std::function<int(int)>> f; int mf = -1;
        opt::option<HA> ha; opt::option<HB> hb; int mha = -1, mhb = -1;
        T() { for (int k = 0; k < K; ++k) tgt[k] = new CallObj(k); }
        ~T() { for (CallObj* x : tgt) delete x; }
    };
    T* ts[3] = {};
    ~CallWorld() override { for (T* t : ts) delete t; }
    void init(int t, const Plan& p) {
        ts[t] = new T; T& s = *ts[t]; u32 r = u32(mix(p.cfg[0], u64(t)) >> 7);
        for (int k = 0; k < K; ++k) if (r >> k & 1) { s.o[k].emplace(k + 1); s.m[k] = k + 1; }
        if (r & 4) { s.p = s.tgt[0]; s.mp = 0; }
        if (r & 8) { s.r = std::ref(*s.tgt[1]); s.mr = 1; }
        if (r & 16) { s.u = std::make_unique<CallObj>(3); s.mu = 3; }
        if (r & 32) { s.i = 4; s.mi = 4; s.l = 5; s.ml = 5; }
        if (r & 128) { s.ha.emplace(6); s.mha = 6; }
        if (r & 256) { s.hb.emplace(7); s.mhb = 7; }
        if (r & 64) { s.s = short(2); s.ms = 2; s.str = "3"; s.mstr = 3; }
    }
    u64 state_key(int t) const { const T& s = *ts[t]; return u64((s.m[0] >= 0) + 2 * (s.m[1] >= 0) + 4 * (s.mp >= 0) + 8 * (s.mr >= 0) + 16 * (s.mu >= 0) + 32 * (s.mi >= 0) + 64 * (s.ms >= 0) + 128 * (s.ml >= 0) + 256 * (s.mstr >= 0) + 512 * (s.mup != -1) + 1024 * (s.mf >= 0) + 2048 * (s.mha >= 0) + 4096 * (s.mhb >= 0)); }
    template<class O, class F> static void one(const O& o, int m, const char* what, F&& read) {
        SIM_CHECK(O_STATE, o.has_value() == (m != -1), "state", "%s is %s", what, o.has_value() ? "engaged" : "empty");
        if (foreign() || !o.has_value()) return;
        int g = read(*o); SIM_CHECK(O_VALUE, g == m || m == -3, "value", "%s holds %d, expected %d", what, g, m); log_event(u64(g + 9));
    }
    static int num(const std::string& s) { return s.empty() ? -7 : s[0] - '0'; }
    void check(int t) {
        T& s = *ts[t];
        for (int k = 0; k < K; ++k) one(s.o[k], s.m[k], "the option of an object", [](const CallObj& x) { x.x.look("a read"); return x.n; });
        one(s.p, s.mp, "the option of a pointer", [&](CallObj* x) { return x == s.tgt[0] ? 0 : x == s.tgt[1] ? 1 : 99; });
        one(s.r, s.mr, "the option of a reference_wrapper", [&](const std::reference_wrapper<CallObj>& x) { return &x.get() == s.tgt[0] ? 0 : &x.get() == s.tgt[1] ? 1 : 99; });
        one(s.u, s.mu, "the option of a unique_ptr", [](const std::unique_ptr<CallObj>& x) { return x ? x->n : -2; });
        one(s.i, s.mi, "option<int>", [](int x) { return x; }); one(s.s, s.ms, "option<short>", [](int x) { return x; }); one(s.l, s.ml, "option<long>", [](long x) { return int(x); });
        one(s.str, s.mstr, "option<string>", [](const std::string& x) { return num(x); });
        one(s.up, s.mup, "option<unique_ptr<Base>>", [](const std::unique_ptr<Base>& x) { return x ? x->b : -2; });
        one(s.f, s.mf, "option<function>", [](const std::function<int(int)>& x) { return x ? x(1) - 1 : -2; });
        one(s.ha, s.mha, "option<HA>", [](const HA& x) { return x.b.look("a read"); });
        one(s.hb, s.mhb, "option<HB>", [](const HB& x) { return x.b.look("a read"); });
        for (int k = 0; k < K; ++k) s.tgt[k]->x.look("a read");
    }
    template<class F> static void cat(int q, opt::option<CallObj>& o, F&& f) { switch (q & 3) { case 0: f(o); break; case 1: f(std::as_const(o)); break; case 2: f(std::move(o)); break; default: f(static_cast<const opt::option<CallObj>&&>(o)); } }
    static void lost(T& s, int k) { if (s.m[k] >= 0) s.m[k] = s.o[k].has_value() ? s.o[k]->n : -3; }
    static const std::vector<Op>& table() {
        static const std::vector<Op> t = [] {
            std::vector<Op> v;
            auto add = [&](const char* n, u32 g, u32 w, void (*fn)(CallWorld&, const Call&)) { v.push_back(Op{OpInfo{n, g, w}, fn}); };
            // ------------------------------------------------ state
            add("set", G_ASSIGN, 6, [](CallWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K), n = c.in(1, 8), kind = c.in(3, 10); const bool e = c.a(2) % 3 != 0; Out r = Out::ok;
                switch (kind) {
                case 0: case 1: r = c.run([&] { if (e) s.o[k].emplace(n); else s.o[k].reset(); }); s.m[k] = r == Out::ok && e ? n : -1; break;
                case 2: c.quiet([&] { if (e) s.p = s.tgt[k]; else s.p = opt::none; }); s.mp = e ? k : -1; break;
                case 3: c.quiet([&] { if (e) s.r = std::ref(*s.tgt[k]); else s.r = opt::none; }); s.mr = e ? k : -1; break;
                case 4: { int was = s.mu; r = c.run([&] { if (e) s.u = std::make_unique<CallObj>(n); else s.u.reset(); }); s.mu = r == Out::ok ? (e ? n : -1) : was; break; }
                case 5: c.quiet([&] { if (e) s.i = n; else s.i = opt::none; }); s.mi = e ? n : -1; break;
                case 6: c.quiet([&] { if (e) s.s = short(n); else s.s = opt::none; }); s.ms = e ? n : -1; break;
                case 7: c.quiet([&] { if (e) s.l = long(n); else s.l = opt::none; }); s.ml = e ? n : -1; break;
                case 8: { Disarm d; if (e) s.str = std::string(40, char('0' + n)); else s.str = opt::none; s.mstr = e ? n : -1; break; }
                default: { Disarm d; if (e) s.f = [n](int x) { return x + n; }; else s.f = opt::none; s.mf = e ? n : -1; }
                }
            });
            // ------------------------------------------------ swaps of options of different types
            add("swap_mixed", G_SWAP, 5, [](CallWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int kind = c.in(3, 6); const int n = c.in(0, 8); const bool e = c.a(2) % 2;
                switch (c.in(1, 4)) { case 0: { Disarm d; if (e) s.ha.emplace(n); else s.ha.reset(); } s.mha = e ? n : -1; break; case 1: { Disarm d; if (e) s.hb.emplace(n); else s.hb.reset(); } s.mhb = e ? n : -1; break; default: break; }
                if (kind == 5) { // an option of a reference swapped with an option of a const reference: neither can be made from the other
                    static_assert(!has_swap<opt::option<int&>, opt::option<const int&>>::value && !has_swap<opt::option<HA>, opt::option<int>>::value && !has_swap<opt::option<const int>, opt::option<const int>>::value);
                    return;
                }
                const int a = s.mha, b = s.mhb;
                Out r = c.run([&] {
                    using std::swap;
                    switch (kind) { case 0: s.ha.swap(s.hb); break; case 1: s.hb.swap(s.ha); break; case 2: opt::swap(s.ha, s.hb); break; case 3: swap(s.hb, s.ha); break; default: swap(s.ha, s.hb); }
                });
                if (r == Out::ok) { s.mha = b; s.mhb = a; return; }
                // a failed swap of two values leaves what the program's own swap left; one that had to move a value leaves it where it was
                if (a != -1 && b != -1) { s.mha = -3; s.mhb = -3; }
            });
            // ------------------------------------------------ data members: a reference into the contained object
            add("map_member_data", G_CALLBACK, 4, [](CallWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K), q = c.in(1, 4); const bool e = s.m[k] >= 0; const void* at = e ? static_cast<const void*>(&std::as_const(s.o[k]).get_unchecked().n) : nullptr;
                c.quiet([&] { cat(q, s.o[k], [&](auto&& o) { using S = decltype(o);
                    auto g = static_cast<S>(o).map(&CallObj::n);
                    constexpr bool lr = std::is_lvalue_reference_v<S>, cn = std::is_const_v<std::remove_reference_t<S>>;
                    using I = std::conditional_t<cn, const int, int>;
                    static_assert(std::is_same_v<decltype(g), opt::option<std::conditional_t<lr, I&, I&&>>>, "map(&X::member) gives a reference to the member");
                    c.eq(g.has_value() == e && static_cast<const void*>(g.ptr_or_null()) == at, "map with a pointer to a data member does not refer to that member");
                }); });
            });
            add("map_or_member_data", G_CALLBACK, 2, [](CallWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K), q = c.in(1, 4); const int m = s.m[k];
                c.quiet([&] { cat(q, s.o[k], [&](auto&& o) { using S = decltype(o); int g = static_cast<S>(o).map_or(-6, &CallObj::n); c.eq(g == (m >= 0 ? m : -6), "map_or with a pointer to a data member"); }); });
            });
            add("write_member", G_CALLBACK, 2, [](CallWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K), n = c.in(2, 8); if (s.m[k] < 0) return;
                c.quiet([&] { auto g = s.o[k].map(&CallObj::n); if (c.a(3) % 2) g.get() = n; else *g = n; }); s.m[k] = n;
            });
            // ------------------------------------------------ member functions
            add("member_function", G_CALLBACK, 6, [](CallWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K), q = c.in(1, 4), kind = c.in(3, 10); const int m = s.m[k]; const bool e = m >= 0, even = e && m % 2 == 0; auto& ok = s.o[k];
                Out r = Out::ok; bool taken = false, touched = false, moved = false;
                r = c.run([&] {
                    switch (kind) {
                    case 0: cat(q, ok, [&](auto&& o) { auto g = static_cast<decltype(o)>(o).map(&CallObj::twice); c.eq(g.has_value() == e && (!e || *g == 2 * m), "map with a member function"); }); break;
                    case 1: cat(q, ok, [&](auto&& o) { auto g = static_cast<decltype(o)>(o).and_then(&CallObj::part); static_assert(std::is_same_v<decltype(g), opt::option<TF>>); Disarm d; c.eq(g.has_value() == even, "and_then with a member function"); }); break;
                    case 2: cat(q, ok, [&](auto&& o) { c.eq(static_cast<decltype(o)>(o).has_value_and(&CallObj::even) == even, "has_value_and with a member function"); }); break;
                    case 3: { opt::option<CallObj> g = q == 0 ? ok.filter(&CallObj::even) : q == 1 ? std::as_const(ok).filter(&CallObj::even) : q == 2 ? std::move(ok).filter(&CallObj::even) : ok.filter(&CallObj::even_mut); moved = q == 2; Disarm d; c.eq(g.has_value() == even && (!even || g->n == m), "filter with a member function"); break; }
                    case 4: { opt::option<CallObj> g = q % 2 ? ok.take_if(&CallObj::even) : ok.take_if(&CallObj::even_mut); taken = even; Disarm d; c.eq(g.has_value() == even && (!even || g->n == m), "take_if with a member function"); break; }
                    case 5: { auto& g = ok.inspect(&CallObj::touch); touched = e; c.eq(&g == &ok, "inspect with a member function"); break; }
                    case 6: cat(q, ok, [&](auto&& o) { c.eq(static_cast<decltype(o)>(o).map_or(-4, &CallObj::twice) == (e ? 2 * m : -4), "map_or with a member function"); }); break;
                    case 7: cat(q, ok, [&](auto&& o) { c.eq(static_cast<decltype(o)>(o).map_or_else(&fn_default, &CallObj::twice) == (e ? 2 * m : -9), "map_or_else with functions"); }); break;
                    case 8: { auto g = ok.and_then(&CallObj::part_ref); c.eq(g.has_value() == e && g.ptr_or_null() == (e ? &ok.get_unchecked().n : nullptr), "and_then giving a reference into the object"); break; }
                    default: { int want[] = {1, 2, 3, 4}; int g = q == 0 ? ok.map_or(0, &CallObj::by_lref) : q == 1 ? std::as_const(ok).map_or(0, &CallObj::by_cref) : q == 2 ? std::move(ok).map_or(0, &CallObj::by_rref) : static_cast<const opt::option<CallObj>&&>(ok).map_or(0, &CallObj::by_crref); c.eq(g == (e ? want[q] : 0), "ref-qualified member function"); } }
                });
                if (r == Out::ok && taken) s.m[k] = -1;
                if (r == Out::ok && touched) s.m[k] = m + 10;
                (void)moved;
            });
            add("map_give", G_CALLBACK, 2, [](CallWorld& w, const Call& c) { // an rvalue member function moves out of the object
                T& s = *w.ts[c.t]; int k = c.in(0, K); const bool e = s.m[k] >= 0; const int was = e ? s.o[k]->x.val : 0;
                Out r = c.run([&] { auto g = std::move(s.o[k]).map(&CallObj::give); static_assert(std::is_same_v<decltype(g), opt::option<TF>>); Disarm d; c.eq(g.has_value() == e && (!e || g->look("a read") == was), "map with an rvalue member function"); });
                if (r == Out::ok && e) SIM_CHECK(O_MOVE | O_RESULT, s.o[k]->x.val == MOVED, "not-moved", "an rvalue member function was not called on the object itself");
            });
            // ------------------------------------------------ through pointers
            add("through_pointer", G_CALLBACK, 5, [](CallWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int kind = c.in(3, 7);
                const CallObj* tp = s.mp >= 0 ? s.tgt[s.mp] : nullptr; const CallObj* tr = s.mr >= 0 ? s.tgt[s.mr] : nullptr; CallObj* tu = s.mu >= 0 ? s.u->get() : nullptr;
                c.run([&] {
                    switch (kind) {
                    case 0: { auto g = s.p.map(&CallObj::n); static_assert(std::is_same_v<decltype(g), opt::option<int&>>); c.eq(g.ptr_or_null() == (tp ? &tp->n : nullptr), "a data member through a pointer"); break; }
                    case 1: { auto g = std::as_const(s.p).map(&CallObj::twice); c.eq(g.has_value() == !!tp && (!tp || *g == 2 * tp->n), "a member function through a pointer"); break; }
                    case 2: { auto g = s.r.map(&CallObj::n); static_assert(std::is_same_v<decltype(g), opt::option<int&>>); c.eq(g.ptr_or_null() == (tr ? &tr->n : nullptr), "a data member through a reference_wrapper"); break; }
                    case 3: c.eq(std::as_const(s.r).has_value_and(&CallObj::even) == (tr && tr->n % 2 == 0), "a member function through a reference_wrapper"); break;
                    case 4: { auto g = s.u.map(&CallObj::n); static_assert(std::is_same_v<decltype(g), opt::option<int&>>); c.eq(g.ptr_or_null() == (tu ? &tu->n : nullptr), "a data member through a unique_ptr"); break; }
                    case 5: { auto g = std::as_const(s.u).and_then(&CallObj::part); Disarm d; c.eq(g.has_value() == (tu && tu->n % 2 == 0), "and_then through a unique_ptr"); break; }
                    default: c.eq(s.u.map_or(-3, &CallObj::twice) == (tu ? 2 * tu->n : -3), "map_or through a unique_ptr"); }
                });
            });
            // ------------------------------------------------ functions, functors
            add("functions", G_CALLBACK, 4, [](CallWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K), kind = c.in(3, 6); const int m = s.m[k]; const bool e = m >= 0; auto& ok = s.o[k]; std::function<int(const CallObj&)> fun; { Disarm d; fun = fn_twice; }
                c.run([&] {
                    switch (kind) {
                    case 0: { auto g = ok.map(fn_twice); c.eq(g.has_value() == e && (!e || *g == 2 * m), "map with a function"); break; }
                    case 1: { auto g = std::as_const(ok).map(&fn_twice); c.eq(g.has_value() == e && (!e || *g == 2 * m), "map with a function pointer"); break; }
                    case 2: { auto g = ok.map(fun); c.eq(g.has_value() == e && (!e || *g == 2 * m), "map with std::function"); break; }
                    case 3: { auto g = ok.map(std::ref(fun)); c.eq(g.has_value() == e && (!e || *g == 2 * m), "map with a reference to std::function"); break; }
                    case 4: c.eq(ok.has_value_and(fn_even) == (e && m % 2 == 0), "has_value_and with a function"); break;
                    default: c.eq(ok.map_or_else(fn_default, fn_twice) == (e ? 2 * m : -9), "map_or_else with functions"); }
                });
            });
            add("functor_category", G_CALLBACK, 4, [](CallWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K), q = c.in(1, 4), fq = c.in(2, 3), kind = c.in(3, 4); const bool e = s.m[k] >= 0; int log = 0, n = c.in(4, 50), g = -1; Quad fn{&log, n}; const Quad cfn{&log, n};
                c.quiet([&] { cat(q, s.o[k], [&](auto&& o) { using S = decltype(o);
                    auto go = [&](auto&& f) { using F = decltype(f);
                        switch (kind) { case 0: { auto x = static_cast<S>(o).map(static_cast<F>(f)); g = x.has_value() ? *x : -1; break; } case 1: g = static_cast<S>(o).map_or(-1, static_cast<F>(f)); break; case 2: g = static_cast<S>(o).map_or_else([] { return -1; }, static_cast<F>(f)); break; default: { auto x = static_cast<S>(o).and_then([&](auto&& y) { return opt::option<int>(static_cast<F>(f)(static_cast<decltype(y)&&>(y))); }); g = x.has_value() ? *x : -1; } }
                    };
                    if (fq == 0) go(fn); else if (fq == 1) go(std::move(fn)); else go(cfn);
                }); });
                SIM_CHECK(O_CALLBACK, log == (e ? fq * 10 + q + 1 : 0), "functor-category", "overload %d of the functor was called, expected %d", log, e ? fq * 10 + q + 1 : 0);
                c.eq(g == (e ? n : -1), "the result of the functor");
            });
            add("explicit_bool", G_CALLBACK, 3, [](CallWorld& w, const Call& c) { // a predicate may return anything that is explicitly convertible to bool
                T& s = *w.ts[c.t]; int k = c.in(0, K), kind = c.in(3, 2); bool yes = c.a(2) % 2; const int m = s.m[k]; const bool e = m >= 0; int calls = 0; auto f = [&](const CallObj&) { ++calls; fpoint(PT_CALL); return Explicit{yes}; };
                Out r = c.run([&] { if (kind) { auto g = std::as_const(s.o[k]).filter(f); c.eq(g.has_value() == (e && yes), "filter"); } else { auto g = s.o[k].take_if(f); c.eq(g.has_value() == (e && yes), "take_if"); } });
                if (!kind && r == Out::ok && e && yes) s.m[k] = -1;
                c.eq(calls == int(e), "a predicate was called the wrong number of times", O_CALLBACK);
            });
            // ------------------------------------------------ what a callback may return
            add("results", G_CALLBACK, 5, [](CallWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K), kind = c.in(3, 7), n = c.in(2, 8); const int m = s.m[k]; const bool e = m >= 0; auto& ok = s.o[k]; int calls = 0; auto hit = [&] { ++calls; fpoint(PT_CALL); };
                Out r = c.run([&] {
                    switch (kind) {
                    case 0: { auto g = ok.map([&](CallObj& x) { hit(); return Fixed(x.n); }); static_assert(std::is_same_v<decltype(g), opt::option<Fixed>>); Disarm d; c.eq(g.has_value() == e && (!e || g->b.look("a read") == m), "map to an object that cannot be moved"); break; }
                    case 1: { auto g = ok.map([&](CallObj& x) { hit(); return std::make_unique<int>(x.n); }); Disarm d; c.eq(g.has_value() == e && (!e || **g == m), "map to a unique_ptr"); break; }
                    case 2: { auto g = ok.map([&](CallObj& x) { hit(); return x.n % 2 ? opt::option<int>() : opt::option<int>(x.n); }); static_assert(std::is_same_v<decltype(g), opt::option<opt::option<int>>>); c.eq(g.has_value() == e && (!e || (g->has_value() == (m % 2 == 0) && (m % 2 || **g == m))), "map to an option"); break; }
                    case 3: { auto g = ok.map([&](CallObj& x) -> const int& { hit(); return x.n; }); static_assert(std::is_same_v<decltype(g), opt::option<const int&>>); c.eq(g.ptr_or_null() == (e ? &ok.get_unchecked().n : nullptr), "map to a const reference"); break; }
                    case 4: { auto g = ok.and_then([&](CallObj& x) { hit(); return n % 2 ? opt::option<std::string>() : opt::option<std::string>(std::string(30, char('a' + x.n % 20))); }); c.eq(g.has_value() == (e && n % 2 == 0) && (!g.has_value() || *g == std::string(30, char('a' + m % 20))), "and_then to another type"); break; }
                    case 5: { auto g = ok.map([&](CallObj& x) -> const TF { hit(); return TF(x.n); }); static_assert(std::is_same_v<decltype(g), opt::option<TF>>); Disarm d; c.eq(g.has_value() == e && (!e || g->look("a read") == m), "map to a const object"); break; }
                    default: { auto g = ok.map([&](CallObj& x) { hit(); return x.n % 2 == 0; }); static_assert(std::is_same_v<decltype(g), opt::option<bool>>); c.eq(g.has_value() == e && (!e || *g == (m % 2 == 0)), "map to bool"); } }
                });
                (void)r;
                c.eq(calls == int(e), "the callback was called the wrong number of times", O_CALLBACK);
            });
            // callbacks that use other options, and this one
            add("reentrant", G_CALLBACK, 3, [](CallWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K), kind = c.in(3, 4), n = c.in(2, 8); const int m = s.m[k], m2 = s.m[1 - k]; const bool e = m >= 0, e2 = m2 >= 0; auto& a = s.o[k]; auto& b = s.o[1 - k];
                Out r = c.run([&] {
                    switch (kind) {
                    case 0: { auto g = a.and_then([&](CallObj& x) { return b.map([&](CallObj& y) { fpoint(PT_CALL); return x.n * 100 + y.n; }); }); c.eq(g.has_value() == (e && e2) && (!g.has_value() || *g == m * 100 + m2), "nested and_then/map"); break; }
                    case 1: { auto g = std::as_const(a).or_else([&] { return std::as_const(b).or_else([&] { fpoint(PT_CALL); return opt::option<CallObj>(CallObj(n)); }); }); Disarm d; c.eq(g.has_value() && g->n == (e ? m : e2 ? m2 : n), "nested or_else"); break; }
                    case 2: { a.inspect([&](CallObj& x) { c.eq(a.has_value() && &*a == &x && std::as_const(a).map_or(-1, &CallObj::n) == m, "the option seen from its own callback"); }); break; }
                    default: { int g = a.map_or_else([&] { return b.map_or(-1, &CallObj::n); }, [&](CallObj& x) { return x.n + b.map_or(1000, &CallObj::n); }); c.eq(g == (e ? m + (e2 ? m2 : 1000) : e2 ? m2 : -1), "nested map_or_else"); } }
                });
                (void)r;
            });
            add("chain", G_CALLBACK, 3, [](CallWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K); const int m = s.m[k]; const bool e = m >= 0; int seen = 0;
                c.run([&] {
                    auto g = std::as_const(s.o[k]).map(&CallObj::n).filter([](const int& x) { fpoint(PT_CALL); return x % 3 != 0; }).map([](const int& x) { fpoint(PT_CALL); return x * 2; }).and_then([](int x) { fpoint(PT_CALL); return x > 4 ? opt::option<long>(x) : opt::option<long>(); }).inspect([&](const long&) { ++seen; }).map([](long x) { return std::to_string(x); }).value_or("none");
                    const bool keep = e && m % 3 != 0 && m * 2 > 4;
                    c.eq(g == (keep ? std::to_string(m * 2) : std::string("none")) && seen == int(keep), "a chain of callbacks");
                });
            });
            add("callable_option", G_CALLBACK, 2, [](CallWorld& w, const Call& c) { T& s = *w.ts[c.t]; int n = c.in(0, 9); c.run([&] { int g = s.f.map_or(-1, [&](const std::function<int(int)>& f) { return f(n); }); c.eq(g == (s.mf >= 0 ? n + s.mf : -1), "an option of a std::function"); }); });
            // ------------------------------------------------ comparisons between different types
            add("compare_mixed", G_CMP, 5, [](CallWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int kind = c.in(3, 6), n = c.in(0, 8);
                c.run([&] {
                    auto rel = [&](const auto& x, const auto& y, int a, int b) { // -1: empty
                        c.eq((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "a comparison of different types");
                    };
                    switch (kind) {
                    case 0: rel(s.i, s.l, s.mi, s.ml); rel(s.l, s.i, s.ml, s.mi); break;
                    case 1: rel(s.s, s.l, s.ms, s.ml); rel(s.s, s.i, s.ms, s.mi); break;
                    case 2: rel(s.i, long(n), s.mi, n); rel(short(n), s.i, n, s.mi); break;
                    case 3: { opt::option<int&> r; if (s.mi >= 0) r = *s.i; opt::option<const int&> cr; cr = r; rel(r, s.i, s.mi, s.mi); rel(s.i, cr, s.mi, s.mi); rel(r, cr, s.mi, s.mi); rel(r, n, s.mi, n); rel(n, cr, n, s.mi); rel(r, s.l, s.mi, s.ml); break; }
                    case 4: { const std::string y(40, char('0' + n)); Disarm d; const int o = s.mstr == -1 || !s.str.has_value() ? -1 : s.str->compare(y) < 0 ? 0 : s.str->compare(y) > 0 ? 2 : 1; rel(s.str, y, o, 1); rel(y, s.str, 1, o); rel(s.str, std::string_view(y), o, 1); rel(s.str, y.c_str(), o, 1); break; }
                    default: { opt::option<const int> a; if (s.mi >= 0) a.emplace(s.mi); rel(a, s.i, s.mi, s.mi); rel(s.l, a, s.ml, s.mi); } }
                });
            });
            add("hash_mixed", G_HASH, 2, [](CallWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K);
                c.quiet([&] {
                    opt::option<int&> r, r2, none; opt::option<const int&> cr; if (s.mi >= 0) { r = *s.i; cr = *s.i; } r2 = s.tgt[k]->n;
                    c.eq(std::hash<opt::option<int&>>{}(r) == std::hash<int*>{}(r.ptr_or_null()) && std::hash<opt::option<int&>>{}(r2) == std::hash<int*>{}(&s.tgt[k]->n) && std::hash<opt::option<const int&>>{}(cr) == std::hash<const int*>{}(cr.ptr_or_null()), "the hash of a reference is not the hash of its address");
                    c.eq((std::hash<opt::option<int&>>{}(r) == std::hash<opt::option<int&>>{}(none)) == (s.mi < 0), "a bound and an empty reference");
                    opt::option<const int> a; if (s.mi >= 0) a.emplace(s.mi);
                    c.eq(std::hash<opt::option<const int>>{}(a) == std::hash<opt::option<int>>{}(s.i), "the hash of option<const int> and option<int>");
                    if (s.mi >= 0) c.eq(std::hash<opt::option<int>>{}(s.i) == std::hash<int>{}(s.mi), "the hash of an option is not that of its value");
                });
            });
            // ------------------------------------------------ conversions
            add("convert", G_CONV, 6, [](CallWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int kind = c.in(3, 10), n = c.in(0, 8); const bool e = c.a(2) % 3 != 0; const bool rv = c.a(1) % 2;
                switch (kind) {
                case 0: c.quiet([&] { s.l = s.i; }); s.ml = s.mi; break;
                case 1: c.quiet([&] { opt::option<long> x(s.s); c.eq(x.has_value() == (s.ms >= 0) && (s.ms < 0 || *x == s.ms), "a converting construction"); if (rv) s.l = x; else s.l = std::move(s.s); }); s.ml = s.ms; break;
                case 2: { opt::option<const char*> x; static const char* const lit[] = {"0", "1", "2", "3", "4", "5", "6", "7"}; if (e) x = lit[n]; const int was = s.mstr; Out r = c.run([&] { if (rv) s.str = x; else { opt::option<std::string> y(x); s.str = std::move(y); } }); if (r == Out::ok) s.mstr = e ? n : -1; else s.mstr = was; break; }
                case 3: { static const char* const lit[] = {"0aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "1", "2", "3bbbbbbbbbbbbbbbbbbbbbbbbbbbbbb", "4", "5", "6", "7"}; const int was = s.mstr; Out r = c.run([&] { if (rv) s.str = lit[n]; else s.str.emplace(lit[n]); }); if (r == Out::ok) s.mstr = n; else s.mstr = rv ? was : -1; break; }
                case 4: { // unique_ptr<Derived> -> unique_ptr<Base>
                    opt::option<std::unique_ptr<Derived>> x; { Disarm d; if (e) { x.emplace(); if (n) *x = std::make_unique<Derived>(n); } }
                    Base* raw = e ? x->get() : nullptr;
                    c.run([&] { if (rv) s.up = std::move(x); else { opt::option<std::unique_ptr<Base>> y(std::move(x)); s.up = std::move(y); } });
                    c.eq(x.has_value() == e && (!e || !*x), "the source of a converting move"); c.eq(!e || (s.up.has_value() && s.up->get() == raw), "a converting move of a unique_ptr");
                    s.mup = e ? (n ? n : -2) : -1; break; }
                case 5: { std::unique_ptr<Derived> x; { Disarm d; if (e) x = std::make_unique<Derived>(n + 1); } Out r = c.run([&] { s.up = std::move(x); }); (void)r; s.mup = e ? n + 1 : -2; c.eq(!x, "an assigned unique_ptr still owns its object"); break; }
                case 6: c.run([&] { s.up.reset(); }); s.mup = -1; break;
                case 7: { const int was = s.mf; Out r = c.run([&] { if (e) s.f = [n, pad = std::array<long, 8>{}](int x) { return x + n + int(pad[0]); }; else s.f.reset(); }); if (r == Out::ok) s.mf = e ? n : -1; else s.mf = was; break; }
                case 8: c.quiet([&] { opt::option<int&> r; if (e) r = s.tgt[0]->n; opt::option<int> x; if (r) x = *r; s.i = x; s.mi = e ? s.tgt[0]->n : -1; }); break;
                default: c.quiet([&] { opt::option<short> x; if (e) x = short(n); opt::option<long> y; y = std::as_const(x); c.eq(y.has_value() == e && (!e || *y == n) && x.has_value() == e, "a converting assignment"); y = opt::option<int>(); c.eq(!y.has_value(), "assignment from an empty option of another type"); y |= 7; c.eq(y.has_value() && *y == 7, "|= with a value of another type"); }); }
            });
            add("defaults", G_ACCESS, 4, [](CallWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int kind = c.in(3, 7), n = c.in(0, 8);
                c.run([&] {
                    switch (kind) {
                    case 0: c.eq(std::as_const(s.i).value_or(short(n)) == (s.mi >= 0 ? s.mi : n), "value_or of another type"); break;
                    case 1: { std::string g = std::as_const(s.str).value_or("9"); c.eq(num(g) == (s.mstr >= 0 ? s.mstr : 9), "value_or of a string literal"); break; }
                    case 2: { std::string g = std::as_const(s.str).value_or(std::string_view("9999")); c.eq(num(g) == (s.mstr >= 0 ? s.mstr : 9), "value_or with an explicit conversion"); break; }
                    case 3: { std::string g = std::as_const(s.str).value_or_construct(std::size_t(35), '9'); c.eq(num(g) == (s.mstr >= 0 ? s.mstr : 9) && (s.mstr >= 0 || g.size() == 35), "value_or_construct"); break; }
                    case 4: { std::string g = std::as_const(s.str).value_or_construct({'9', 'x'}); c.eq(num(g) == (s.mstr >= 0 ? s.mstr : 9), "value_or_construct from a list"); break; }
                    case 5: { std::string g = std::move(s.str).value_or("9"); c.eq(num(g) == (s.mstr >= 0 ? s.mstr : 9), "value_or of an rvalue"); if (s.mstr >= 0) { Disarm d; c.eq(s.str.has_value(), "value_or of an rvalue emptied the option"); s.str.reset(); s.mstr = -1; } break; }
                    default: { auto g = std::as_const(s.str).map_or(std::string("9"), [](const std::string& x) { return x + "!"; }); c.eq(num(g) == (s.mstr >= 0 ? s.mstr : 9), "map_or of strings"); } }
                });
                if (s.mstr >= 0 && s.str.has_value() && s.str->empty()) s.mstr = -3;
            });
            add("logic_mixed", G_LOGIC, 3, [](CallWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int kind = c.in(3, 5), n = c.in(0, 8);
                c.run([&] {
                    switch (kind) {
                    case 0: { auto g = s.i & s.str; static_assert(std::is_same_v<decltype(g), opt::option<std::string>>); c.eq(g.has_value() == (s.mi >= 0 && s.mstr >= 0) && (!g.has_value() || num(*g) == s.mstr), "& of different types"); break; }
                    case 1: { auto g = s.str & s.l; static_assert(std::is_same_v<decltype(g), opt::option<long>>); c.eq(g.has_value() == (s.ml >= 0 && s.mstr >= 0) && (!g.has_value() || *g == s.ml), "& of different types"); break; }
                    case 2: { int g = s.i | n; c.eq(g == (s.mi >= 0 ? s.mi : n), "| with a value"); break; }
                    case 3: { auto g = s.i & opt::option<std::unique_ptr<int>>(std::make_unique<int>(n)); c.eq(g.has_value() == (s.mi >= 0) && (!g.has_value() || **g == n), "& with an rvalue"); break; }
                    default: { opt::option<long> y = s.l; y |= s.i; c.eq(y.has_value() == (s.ml >= 0 || s.mi >= 0) && (!y.has_value() || *y == (s.ml >= 0 ? s.ml : s.mi)), "|= with an option of another type"); } }
                });
            });
            return v;
        }();
        return t;
    }
};
SIM_MINI("calls", TG_CALL | TG_TRACKED, 6, CallWorld);
} // namespace sim
