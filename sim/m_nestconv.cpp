// Options of options of one type, made from, assigned from, compared with and cast to options of options of another type:
// every level of emptiness has to arrive where it came from.
#include "mini.hpp"
namespace sim {
// From is tracked, To is tracked and can be made from it by copying and by moving
struct NcP { Tr<NOEXC | ADDR> b; explicit NcP(int v) : b(v) {} NcP(const NcP&) = default; NcP(NcP&&) = default; NcP& operator=(const NcP&) = default; NcP& operator=(NcP&&) = default; };
struct NcQ {
    Tr<SWAP> b;
    explicit NcQ(int v) : b(v) {}
    NcQ(const NcQ&) = default; NcQ(NcQ&&) = default; NcQ& operator=(const NcQ&) = default; NcQ& operator=(NcQ&&) = default;
    NcQ(const NcP& o) : b(Src{o.b.look("conversion")}) {}
    NcQ(NcP&& o) : b(Src{o.b.look("conversion")}) { o.b.gone(); }
    NcQ& operator=(const NcP& o) { b = Src{o.b.look("conversion")}; return *this; }
    NcQ& operator=(NcP&& o) { b = Src{o.b.look("conversion")}; o.b.gone(); return *this; }
};
inline bool operator==(const NcP& x, const NcQ& y) { fpoint(PT_CMP); return x.b.look("a comparison") == y.b.look("a comparison"); }
inline bool operator!=(const NcP& x, const NcQ& y) { fpoint(PT_CMP); return x.b.look("a comparison") != y.b.look("a comparison"); }
inline bool operator<(const NcP& x, const NcQ& y) { fpoint(PT_CMP); return x.b.look("a comparison") < y.b.look("a comparison"); }
inline bool operator<=(const NcP& x, const NcQ& y) { fpoint(PT_CMP); return x.b.look("a comparison") <= y.b.look("a comparison"); }
inline bool operator>(const NcP& x, const NcQ& y) { fpoint(PT_CMP); return x.b.look("a comparison") > y.b.look("a comparison"); }
inline bool operator>=(const NcP& x, const NcQ& y) { fpoint(PT_CMP); return x.b.look("a comparison") >= y.b.look("a comparison"); }
template<class T> struct NcVal { static constexpr int n = 8; static T make(int v) { return T(v); } static int num(const T& x) { return int(x); } };
template<> struct NcVal<bool> { static constexpr int n = 2; static bool make(int v) { return v & 1; } static int num(bool x) { return x; } };
template<> struct NcVal<const char*> { static constexpr int n = 8; static const char* make(int v) { static const char* const lit[] = {"0", "1aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "2", "3bbbbbbbbbbbbbbbbbbbbbbbbbbbb", "4", "5cccccccccccccccccccccccccccccccccc", "6", "7"}; return lit[v & 7]; } static int num(const char* x) { return x[0] - '0'; } };
template<> struct NcVal<std::string> { static constexpr int n = 8; static std::string make(int v) { return NcVal<const char*>::make(v); } static int num(const std::string& x) { return x.empty() ? 99 : x[0] - '0'; } };
template<> struct NcVal<NcP> { static constexpr int n = 8; static NcP make(int v) { return NcP(v); } static int num(const NcP& x) { return x.b.look("a read"); } };
template<> struct NcVal<NcQ> { static constexpr int n = 8; static NcQ make(int v) { return NcQ(v); } static int num(const NcQ& x) { return x.b.look("a read"); } };
template<class T, int D> struct LiftT { using type = opt::option<typename LiftT<T, D - 1>::type>; };
template<class T> struct LiftT<T, 0> { using type = T; };
template<class T, int D> using Lift = typename LiftT<T, D>::type;
// e: 0..D-1 empty at that level (0 is the outermost), 10+v the value v
template<class T, int D> Lift<T, D> nc_make(int e) {
    if constexpr (D == 0) return NcVal<T>::make(e - 10);
    else { if (e == 0) return Lift<T, D>(); return Lift<T, D>(std::in_place, nc_make<T, D - 1>(e >= 10 ? e : e - 1)); }
}
template<class T, int D> int nc_read(const Lift<T, D>& x) {
    if constexpr (D == 0) return 10 + NcVal<T>::num(x);
    else { if (!x.has_value()) return 0; int r = nc_read<T, D - 1>(*x); return r >= 10 ? r : r + 1; }
}
template<class T, int D> const void* nc_addr(const Lift<T, D>& x) { if constexpr (D == 0) return std::addressof(x); else return nc_addr<T, D - 1>(x.get_unchecked()); }
template<class A, class B>
struct NcWorld final : MiniWorld<NcWorld<A, B>> {
    using Op = typename MiniWorld<NcWorld<A, B>>::Op;
    static constexpr int MD = 3, NV = NcVal<A>::n;
    struct T { Lift<A, 1> a1; Lift<A, 2> a2; Lift<A, 3> a3; Lift<B, 1> b1; Lift<B, 2> b2; Lift<B, 3> b3; int ma[4] = {}, mb[4] = {}; };
    template<int D> static auto& ga(T& s) { if constexpr (D == 1) return s.a1; else if constexpr (D == 2) return s.a2; else return s.a3; }
    template<int D> static auto& gb(T& s) { if constexpr (D == 1) return s.b1; else if constexpr (D == 2) return s.b2; else return s.b3; }
    template<class F> static void depth(int d, F&& f) { switch (d) { case 0: f(std::integral_constant<int, 1>{}); break; case 1: f(std::integral_constant<int, 2>{}); break; default: f(std::integral_constant<int, 3>{}); } }
    T* ts[3] = {};
    ~NcWorld() override { for (T* t : ts) delete t; }
    static int state_of(int d, u32 r) { return int(r % 4) < d && r % 4 != 3 ? int(r % 4) : 10 + int((r >> 2) % NV); }
    void init(int t, const Plan& p) {
        ts[t] = new T; T& s = *ts[t]; u64 r = mix(p.cfg[0], u64(t));
        for (int d = 0; d < 3; ++d) depth(d, [&](auto D) { constexpr int d1 = D(); s.ma[d1] = state_of(d1, u32(r >> (8 * d1))); s.mb[d1] = state_of(d1, u32(r >> (8 * d1 + 32))); put<A>(ga<d1>(s), s.ma[d1], D); put<B>(gb<d1>(s), s.mb[d1], D); });
    }
    template<class X, class O, int D> static void put(O& o, int e, std::integral_constant<int, D>) { if (e == 0) o.reset(); else o.emplace(nc_make<X, D - 1>(e >= 10 ? e : e - 1)); }
    u64 state_key(int t) const { const T& s = *ts[t]; u64 k = 0; for (int d = 1; d <= 3; ++d) k = k * 25 + u64(std::min(s.ma[d], 4) * 5 + std::min(s.mb[d], 4)); return k; }
    void check(int t) {
        T& s = *ts[t];
        for (int d = 0; d < 3; ++d) depth(d, [&](auto D) { constexpr int d1 = D(); one<A, d1>(ga<d1>(s), s.ma[d1], "source"); one<B, d1>(gb<d1>(s), s.mb[d1], "target"); });
    }
    template<class X, int D> static void one(const Lift<X, D>& o, int m, const char* what) {
        if (foreign()) return;
        const int r = nc_read<X, D>(o);
        SIM_CHECK(O_STATE, (r >= 10) == (m >= 10) && (r >= 10 || r == m), "state", "the %s of depth %d: state %d, expected %d (below 10: empty at that level)", what, D, r, m);
        SIM_CHECK(O_VALUE, r == m, "value", "the %s of depth %d: %d, expected %d", what, D, r, m);
        log_event(u64(r));
    }
    static bool same_levels(int r, int was) { return r >= 10 ? was >= 10 : r == was; }
    static constexpr bool tracked = std::is_same_v<A, NcP>;
    // after a conversion from an rvalue the source is engaged at every level it was, its value moved from
    template<int D> static void source_moved(const Call& c, T& s, bool used, Out r) {
        if (foreign()) return;
        Disarm d;
        const int g = nc_read<A, D>(ga<D>(s)), was = s.ma[D];
        c.eq(same_levels(g, was), "the source of a moving conversion changed its state", O_STATE | O_OTHER);
        if constexpr (tracked) { if (was >= 10) { if (r == Out::ok && used) SIM_CHECK(O_MOVE, g == 10 + MOVED, "not-moved", "an rvalue source was copied, not moved"); if (!used) c.eq(g == was, "the source changed", O_OTHER); put<A>(ga<D>(s), was, std::integral_constant<int, D>{}); } }
        else c.eq(g == was, "the source of a moving conversion changed", O_OTHER);
    }
    static const std::vector<Op>& table() {
        static const std::vector<Op> t = [] {
            std::vector<Op> v;
            auto add = [&](const char* n, u32 g, u32 w, void (*fn)(NcWorld&, const Call&)) { v.push_back(Op{OpInfo{n, g, w}, fn}); };
            add("set", G_ASSIGN | G_MUT, 8, [](NcWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; Disarm off;
                depth(c.in(0, 3), [&](auto D) { constexpr int d = D(); const int e = state_of(d, c.a(1)); if (c.a(2) % 2) { put<A>(ga<d>(s), e, D); s.ma[d] = e; } else { put<B>(gb<d>(s), e, D); s.mb[d] = e; } });
            });
            add("construct", G_CONV, 6, [](NcWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; const int q = c.in(1, 4);
                depth(c.in(0, 3), [&](auto D) { constexpr int d = D(); using L = Lift<B, d>; auto& a = ga<d>(s); const int m = s.ma[d];
                    Out r = c.run([&] {
                        auto see = [&](const L& x) { Disarm off; c.eq(nc_read<B, d>(x) == m, "a conversion of options of options"); };
                        switch (q) { case 0: { L x(a); see(x); break; } case 1: { L x(std::as_const(a)); see(x); break; } case 2: { L x(std::move(a)); see(x); break; } default: { L x = std::as_const(a); see(x); } }
                    });
                    if (q == 2) source_moved<d>(c, s, true, r);
                });
            });
            add("assign", G_ASSIGN, 6, [](NcWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; const int q = c.in(1, 3);
                depth(c.in(0, 3), [&](auto D) { constexpr int d = D(); auto& a = ga<d>(s); auto& b = gb<d>(s); const int m = s.ma[d], was = s.mb[d];
                    Out r = c.run([&] { switch (q) { case 0: b = a; break; case 1: b = std::as_const(a); break; default: b = std::move(a); } });
                    if (foreign()) return;
                    if (q == 2) source_moved<d>(c, s, true, r);
                    if (r == Out::ok) { s.mb[d] = m; return; }
                    Disarm off; const int g = nc_read<B, d>(b); // a failed assignment: the levels that were engaged still are, the others are not
                    SIM_CHECK(O_FAILKEEP | O_FAILEMPTY | O_STATE, same_levels(g, was), "failed-assignment", "a failed assignment left state %d, it was %d", g, was);
                    s.mb[d] = g;
                });
            });
            // an option of one level less is a value: it arrives inside, and the outermost level is engaged
            add("lift_assign", G_ASSIGN, 5, [](NcWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; const int q = c.in(1, 3);
                depth(c.in(0, 2), [&](auto D) { constexpr int d = D(); auto& a = ga<d>(s); auto& b = gb<d + 1>(s); const int m = s.ma[d], was = s.mb[d + 1];
                    Out r = c.run([&] { switch (q) { case 0: b = a; break; case 1: b = std::as_const(a); break; default: b = std::move(a); } });
                    if (foreign()) return;
                    if (q == 2) source_moved<d>(c, s, true, r);
                    if (r == Out::ok) { s.mb[d + 1] = m >= 10 ? m : m + 1; return; }
                    Disarm off; const int g = nc_read<B, d + 1>(b);
                    SIM_CHECK(O_FAILKEEP | O_FAILEMPTY | O_STATE, same_levels(g, was), "failed-assignment", "a failed assignment left state %d, it was %d", g, was);
                    s.mb[d + 1] = g;
                });
            });
            add("lift_construct", G_CONV, 5, [](NcWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; const int q = c.in(1, 5);
                depth(c.in(0, 2), [&](auto D) { constexpr int d = D(); using L = Lift<B, d + 1>; auto& a = ga<d>(s); const int m = s.ma[d];
                    Out r = c.run([&] {
                        auto see = [&](const L& x) { Disarm off; c.eq(nc_read<B, d + 1>(x) == (m >= 10 ? m : m + 1), "an option of options made from an option"); };
                        switch (q) { case 0: { L x(a); see(x); break; } case 1: { L x(std::as_const(a)); see(x); break; } case 2: { L x(std::move(a)); see(x); break; } case 3: { L x(std::in_place, std::as_const(a)); see(x); break; } default: { L x; x.emplace(std::as_const(a)); see(x); } }
                    });
                    if (q == 2) source_moved<d>(c, s, true, r);
                });
            });
            add("value", G_ASSIGN, 4, [](NcWorld& w, const Call& c) { // a bare value engages every level
                T& s = *w.ts[c.t]; const int n = c.in(1, NV), q = c.in(2, 4);
                depth(c.in(0, 3), [&](auto D) { constexpr int d = D(); auto& b = gb<d>(s); const int was = s.mb[d]; A val = [&] { Disarm off; return NcVal<A>::make(n); }();
                    Out r = c.run([&] { switch (q) { case 0: b = val; break; case 1: b = std::move(val); break; case 2: b = std::as_const(val); break; default: { Lift<B, d> x(std::as_const(val)); Disarm off; c.eq(nc_read<B, d>(x) == 10 + n, "a value made into an option of options"); return; } } });
                    if (foreign() || q == 3) return;
                    if (r == Out::ok) { s.mb[d] = 10 + n; return; }
                    Disarm off; const int g = nc_read<B, d>(b);
                    SIM_CHECK(O_FAILKEEP | O_FAILEMPTY | O_STATE, same_levels(g, was), "failed-assignment", "a failed assignment left state %d, it was %d", g, was);
                    s.mb[d] = g;
                });
            });
            add("none", G_RESET, 2, [](NcWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; const int q = c.in(1, 5);
                depth(c.in(0, 3), [&](auto D) { constexpr int d = D(); auto& b = gb<d>(s);
                    c.run([&] { switch (q) { case 0: b.reset(); break; case 1: b = opt::none; break; case 2: b = Lift<B, d>{}; break; case 3: { Lift<A, d> e; b = e; break; } default: b = Lift<B, d>(); } }); s.mb[d] = 0; });
            });
            add("inner", G_ASSIGN, 4, [](NcWorld& w, const Call& c) { // through the contained option
                T& s = *w.ts[c.t]; const int q = c.in(1, 4);
                depth(1 + c.in(0, 2), [&](auto D) { constexpr int d = D(); if constexpr (d > 1) { auto& b = gb<d>(s); if (s.mb[d] == 0) return; auto& a = ga<d - 1>(s); const int m = s.ma[d - 1], was = s.mb[d];
                    Out r = c.run([&] { switch (q) { case 0: b->reset(); break; case 1: *b = opt::none; break; case 2: b.get() = a; break; default: *b = std::as_const(a); } });
                    if (foreign()) return;
                    if (r == Out::ok) { s.mb[d] = q < 2 ? 1 : m >= 10 ? m : m + 1; return; }
                    Disarm off; const int g = nc_read<B, d>(b);
                    SIM_CHECK(O_FAILKEEP | O_FAILEMPTY | O_STATE, same_levels(g, was), "failed-assignment", "a failed assignment left state %d, it was %d", g, was);
                    s.mb[d] = g;
                } });
            });
            add("compare", G_CMP, 5, [](NcWorld& w, const Call& c) { // empty is less than anything, at every level
                T& s = *w.ts[c.t];
                depth(c.in(0, 3), [&](auto D) { constexpr int d = D(); auto& a = std::as_const(ga<d>(s)); auto& b = std::as_const(gb<d>(s)); const int x = s.ma[d], y = s.mb[d];
                    c.run([&] { if constexpr (!std::is_same_v<A, const char*>) c.eq((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "a comparison of options of options of different types");
                    c.eq((a == opt::none) == (x == 0) && (opt::none != b) == (y != 0) && (a > opt::none) == (x != 0) && (b <= opt::none) == (y == 0), "a comparison with none"); });
                });
            });
            add("cast", G_MISC, 4, [](NcWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; const bool rv = c.in(1, 2);
                depth(c.in(0, 3), [&](auto D) { constexpr int d = D(); auto& a = ga<d>(s); const int m = s.ma[d];
                    Out r = c.run([&] { auto see = [&](auto&& g) { static_assert(std::is_same_v<std::decay_t<decltype(g)>, Lift<B, d>>); Disarm off; c.eq(nc_read<B, d>(g) == m, "option_cast to an option of options"); };
                        if (rv) see(opt::option_cast<Lift<B, d - 1>>(std::move(a))); else see(opt::option_cast<Lift<B, d - 1>>(std::as_const(a))); });
                    if (rv) source_moved<d>(c, s, true, r);
                });
            });
            add("flatten", G_MISC, 3, [](NcWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; const bool rv = c.in(1, 2);
                depth(1 + c.in(0, 2), [&](auto D) { constexpr int d = D(); if constexpr (d > 1) { auto& a = ga<d>(s); const int m = s.ma[d];
                    const void* at = nullptr; if (m >= 10) at = nc_addr<A, d>(a); // every level goes; an lvalue gives a reference into it
                    Out r = c.run([&] {
                        if (rv) { auto g = opt::flatten(std::move(a)); static_assert(std::is_same_v<decltype(g), opt::option<A>>); Disarm off; c.eq((g.has_value() ? 10 + NcVal<A>::num(*g) : 0) == (m >= 10 ? m : 0), "flatten of an option of options"); }
                        else { auto g = opt::flatten(std::as_const(a)); static_assert(std::is_same_v<decltype(g), opt::option<const A&>>); c.eq(static_cast<const void*>(g.ptr_or_null()) == at, "flatten of an lvalue does not refer to the value"); }
                    });
                    if (rv) source_moved<d>(c, s, true, r);
                } });
            });
            add("use", G_CALLBACK | G_ACCESS | G_LOGIC, 5, [](NcWorld& w, const Call& c) { // an option of options handed to the other type by the operations of the interface
                T& s = *w.ts[c.t]; const int kind = c.in(1, 6);
                depth(1 + c.in(0, 2), [&](auto D) { constexpr int d = D(); if constexpr (d > 1) { auto& a = std::as_const(ga<d>(s)); auto& b = gb<d>(s); const int m = s.ma[d], y = s.mb[d]; using LI = Lift<B, d - 1>; const int in = m >= 10 ? m : m - 1;
                    auto is = [&](const LI& g, int e) { Disarm off; c.eq(nc_read<B, d - 1>(g) == e, "the contained option"); };
                    c.run([&] {
                        switch (kind) {
                        case 0: { auto g = a.map([&](const Lift<A, d - 1>& x) { fpoint(PT_CALL); return LI(x); }); static_assert(std::is_same_v<decltype(g), Lift<B, d>>); Disarm off; c.eq(nc_read<B, d>(g) == m, "map of an option of options"); break; }
                        case 1: is(a.and_then([&](const Lift<A, d - 1>& x) { fpoint(PT_CALL); return LI(x); }), m == 0 ? 0 : in); break;
                        case 2: is(std::as_const(b).value_or(ga<d - 1>(s)), y == 0 ? s.ma[d - 1] : y >= 10 ? y : y - 1); break;
                        case 3: is(a.map_or(LI(), [&](const Lift<A, d - 1>& x) { fpoint(PT_CALL); return LI(x); }), m == 0 ? 0 : in); break;
                        case 4: c.eq(a.has_value_and([&](const Lift<A, d - 1>& x) { fpoint(PT_CALL); return x.has_value(); }) == (m >= 2), "has_value_and of an option of options"); break;
                        default: { Disarm off; int cnt = 0, seen = -1; for (auto& x : a) { ++cnt; seen = nc_read<A, d - 1>(x); } c.eq(cnt == int(m != 0) && (m == 0 || seen == in), "iteration over an option of options"); } }
                    });
                } });
            });
            return v;
        }();
        return t;
    }
};
using NcShort = NcWorld<short, long>; using NcBool = NcWorld<bool, int>; using NcFloat = NcWorld<float, double>; using NcStr = NcWorld<const char*, std::string>; using NcTr = NcWorld<NcP, NcQ>;
SIM_MINI("nestconv<short,long>", TG_NESTED, 3, NcShort);
SIM_MINI("nestconv<bool,int>", TG_NESTED | TG_BUILTIN, 3, NcBool);
SIM_MINI("nestconv<float,double>", TG_NESTED | TG_BUILTIN, 2, NcFloat);
SIM_MINI("nestconv<const char*,string>", TG_NESTED | TG_STD, 2, NcStr);
SIM_MINI("nestconv<tracked>", TG_NESTED | TG_TRACKED, 4, NcTr);
} // namespace sim
