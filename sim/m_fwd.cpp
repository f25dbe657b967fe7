// Every operation that makes or assigns a value from an argument hands that argument on as what it is: the contained type
// records which of its constructors and assignments was called, and the argument knows whether it was moved from or copied.
#include "mini.hpp"
namespace sim {
using FwArg = Tr<1u << 24>; using FwTNi = Tr<NICHE | 1u << 25>;
enum : int { FW_L = 1, FW_CL = 2, FW_R = 3, FW_CR = 4, FW_ASG = 10, FW_INT = 50, FW_TWO = 100, FW_LIST = 200 };
template<class X> constexpr int fw_cat = std::is_lvalue_reference_v<X> ? (std::is_const_v<std::remove_reference_t<X>> ? FW_CL : FW_L) : std::is_const_v<std::remove_reference_t<X>> ? FW_CR : FW_R;
struct Fw {
    Tr<2u << 24> b; int how;
    struct Take { int v; Take(const FwArg& a) : v(a.look("an argument")) { fpoint(PT_CONV); } };
    explicit Fw(int v) : b(v), how(FW_INT) {}
    Fw(FwArg& a) : b(Take(a).v), how(FW_L) {}
    Fw(const FwArg& a) : b(Take(a).v), how(FW_CL) {}
    Fw(FwArg&& a) : b(Take(a).v), how(FW_R) { a.gone(); }
    Fw(const FwArg&& a) : b(Take(a).v), how(FW_CR) {}
    template<class X, class Y> Fw(X&& x, Y&& y) : b(Take(x).v * 10 + Take(y).v), how(FW_TWO + fw_cat<X&&> * 4 + fw_cat<Y&&>) { if constexpr (fw_cat<X&&> == FW_R) x.gone(); if constexpr (fw_cat<Y&&> == FW_R) y.gone(); }
    template<class Y> Fw(std::initializer_list<int> il, Y&& y) : b(int(il.size()) * 10 + Take(y).v), how(FW_LIST + fw_cat<Y&&>) { if constexpr (fw_cat<Y&&> == FW_R) y.gone(); }
    Fw(const Fw& o) : b(o.b), how(o.how) {}
    Fw(Fw&& o) : b(std::move(o.b)), how(o.how) {}
    Fw& operator=(const Fw& o) { b = o.b; how = o.how; return *this; }
    Fw& operator=(Fw&& o) { b = std::move(o.b); how = o.how; return *this; }
    Fw& set(const FwArg& a, int h) { b = Src{Take(a).v}; how = FW_ASG + h; return *this; }
    Fw& operator=(FwArg& a) { return set(a, FW_L); }
    Fw& operator=(const FwArg& a) { return set(a, FW_CL); }
    Fw& operator=(FwArg&& a) { set(a, FW_R); a.gone(); return *this; }
    Fw& operator=(const FwArg&& a) { return set(a, FW_CR); }
};
struct FwAgg { Fw a; Fw c; }; // brace initialised
// only explicit conversions, no assignment
struct FwEx : Fw {
    using Fw::Fw;
    explicit FwEx(FwArg& a) : Fw(a) {}
    explicit FwEx(const FwArg& a) : Fw(a) {}
    explicit FwEx(FwArg&& a) : Fw(std::move(a)) {}
    explicit FwEx(const FwArg&& a) : Fw(static_cast<const FwArg&&>(a)) {}
};
// what a callback returns: an aggregate or not, trivially destructible or not, with and without a niche
template<class R> struct Type { using type = R; };
struct FwPod { int a, b; };
struct FwPodN { bool n; int a; }; // has levels where structures are reflected
struct FwCtor { int a; FwCtor(int x) : a(x) {} };
struct FwCtorN : FwCtor { unsigned char PADDING = 0; FwCtorN(int x) : FwCtor(x) {} };
struct FwAggN { Tr<NICHE | 1u << 25> a; };
// a callable that says as what it was called
template<class R> struct FwFn {
    int* how; const void** seen;
    template<class X> R go(int q, X&& x) const { *how = q; *seen = std::addressof(x.b); fpoint(PT_CALL); return make(x.b.look("a callback")); }
    static R make(int v) {
        if constexpr (std::is_same_v<R, FwPod>) return R{v, -v}; else if constexpr (std::is_same_v<R, FwPodN>) return R{true, v}; else if constexpr (std::is_same_v<R, FwAgg>) return R{Fw(v), Fw(v + 1)}; else if constexpr (std::is_same_v<R, FwAggN>) return R{Tr<NICHE | 1u << 25>(v)};
        else if constexpr (std::is_same_v<R, bool>) return v % 2 != 0; else if constexpr (std::is_same_v<R, std::string>) return std::string(std::size_t(v % 100), 'x'); else if constexpr (std::is_same_v<R, std::pair<bool, FwPod>>) return R{true, FwPod{v, -v}}; else if constexpr (std::is_same_v<R, std::array<Fw, 2>>) return R{Fw(v), Fw(v + 1)}; else return R(v);
    }
    static int read(const R& r) {
        if constexpr (std::is_same_v<R, FwPod>) return r.b == -r.a ? r.a : -1; else if constexpr (std::is_same_v<R, FwPodN>) return r.n ? r.a : -1; else if constexpr (std::is_same_v<R, FwAgg>) return r.c.b.look("a read") == r.a.b.look("a read") + 1 ? r.a.b.val : -1; else if constexpr (std::is_same_v<R, FwAggN>) return r.a.look("a read");
        else if constexpr (std::is_same_v<R, std::string>) return int(r.size()); else if constexpr (std::is_same_v<R, std::pair<bool, FwPod>>) return r.first && r.second.b == -r.second.a ? r.second.a : -1; else if constexpr (std::is_same_v<R, std::array<Fw, 2>>) return r[1].b.look("a read") == r[0].b.look("a read") + 1 ? r[0].b.val : -1;
        else if constexpr (std::is_same_v<R, Fw>) return r.b.look("a read"); else if constexpr (std::is_same_v<R, FwTNi>) return r.look("a read"); else if constexpr (std::is_same_v<R, int>) return r; else return r.a;
    }
    R none(int q) const { *how = q; fpoint(PT_CALL); return R(77); }
    R operator()() & { return none(FW_L); }
    R operator()() const& { return none(FW_CL); }
    R operator()() && { return none(FW_R); }
    R operator()() const&& { return none(FW_CR); }
    template<class X> R operator()(X&& x) & { return go(FW_L, x); }
    template<class X> R operator()(X&& x) const& { return go(FW_CL, x); }
    template<class X> R operator()(X&& x) && { return go(FW_R, x); }
    template<class X> R operator()(X&& x) const&& { return go(FW_CR, x); }
};
struct FwWorld final : MiniWorld<FwWorld> {
    using Op = MiniWorld<FwWorld>::Op;
    static constexpr int K = 2;
    struct T { opt::option<Fw> o[K]; int m[K] = {-1, -1}, h[K] = {}; opt::option<FwArg> src; int ms = -1; opt::option<FwAgg> g; int ma = -1, mc = -1; };
    T* ts[3] = {};
    ~FwWorld() override { for (T* t : ts) delete t; }
    void init(int t, const Plan& p) { ts[t] = new T; T& s = *ts[t]; u32 r = u32(mix(p.cfg[0], u64(t)) >> 9); for (int k = 0; k < K; ++k) if (r >> k & 1) { s.o[k].emplace(k + 1); s.m[k] = k + 1; s.h[k] = FW_INT; } if (r & 4) { s.src.emplace(5); s.ms = 5; } }
    u64 state_key(int t) const { const T& s = *ts[t]; return u64((s.m[0] >= 0) + 2 * (s.m[1] >= 0) + 4 * (s.ms >= 0) + 8 * (s.ma >= 0)); }
    void check(int t) {
        T& s = *ts[t];
        for (int k = 0; k < K; ++k) {
            SIM_CHECK(O_STATE, s.o[k].has_value() == (s.m[k] != -1), "state", "option %d is %s", k, s.o[k].has_value() ? "engaged" : "empty");
            if (foreign()) return;
            if (s.m[k] == -1) continue;
            int v = s.o[k]->b.look("a read");
            SIM_CHECK(O_VALUE, v == s.m[k] || s.m[k] == -3, "value", "option %d holds %d, expected %d", k, v, s.m[k]); log_event(u64(v));
        }
        SIM_CHECK(O_STATE, s.src.has_value() == (s.ms != -1) && s.g.has_value() == (s.ma != -1), "state", "the source option or the option of an aggregate");
        if (foreign()) return;
        if (s.ms != -1) { int v = s.src->look("a read"); SIM_CHECK(O_VALUE | O_OTHER, v == s.ms, "value", "the source holds %d, expected %d", v, s.ms); }
        if (s.ma != -1) { int a = s.g->a.b.look("a read"), c = s.g->c.b.look("a read"); SIM_CHECK(O_VALUE, a == s.ma && c == s.mc, "value", "the aggregate holds %d, %d, expected %d, %d", a, c, s.ma, s.mc); }
    }
    // f(argument as category q)
    template<class F> static void cat(int q, FwArg& a, F&& f) { switch (q & 3) { case 0: f(a); break; case 1: f(std::as_const(a)); break; case 2: f(std::move(a)); break; default: f(static_cast<const FwArg&&>(a)); } }
    static int catno(int q) { return (q & 3) + 1; }
    static void copies(const Call&, u32 before, u32 most) { SIM_CHECK(O_MOVE, cur->copies - before <= most, "copies", "%u copies were made where %u are needed", cur->copies - before, most); }
    // the argument after the call: moved from iff it is an rvalue, was used, and the call succeeded
    static void after(const Call&, FwArg& a, int q, bool used, int n, Out r) {
        if (foreign()) return;
        Disarm d; const int v = a.look("a read");
        if (!used || (q & 3) != 2) SIM_CHECK(O_OTHER | O_MOVE, v == n, "argument", "an argument that is not to be moved from holds %d, it was %d", v, n);
        else if (r == Out::ok) SIM_CHECK(O_MOVE, v == MOVED, "not-moved", "an rvalue argument was not moved from");
    }
    static void made(const Call& c, const Fw& x, int v, int how, const char* what) { Disarm d; const int g = x.b.look("a read"); c.eq(g == v, what); SIM_CHECK(O_MOVE, x.how == how, "category", "%s: constructor/assignment %d was called, expected %d", what, x.how, how); }
    static const std::vector<Op>& table() {
        static const std::vector<Op> t = [] {
            std::vector<Op> v;
            auto add = [&](const char* n, u32 g, u32 w, void (*fn)(FwWorld&, const Call&)) { v.push_back(Op{OpInfo{n, g, w}, fn}); };
            add("set", G_ASSIGN | G_RESET, 5, [](FwWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; Disarm d; const int n = c.in(1, 9); const bool e = c.a(2) % 2;
                switch (c.in(0, 3)) { case 0: { const int k = c.in(3, K); if (e) s.o[k].emplace(n); else s.o[k].reset(); s.m[k] = e ? n : -1; break; } case 1: if (e) s.src.emplace(n); else s.src.reset(); s.ms = e ? n : -1; break; default: if (e) s.g.emplace(Fw(n), Fw(n + 1)); else s.g.reset(); s.ma = e ? n : -1; s.mc = e ? n + 1 : -1; }
            });
            add("construct", G_CTOR, 6, [](FwWorld& w, const Call& c) {
                const int q = c.in(1, 4), kind = c.in(2, 8), n = c.in(3, 9), n2 = c.in(4, 9); (void)w; FwArg a = [&] { Disarm d; return FwArg(n); }(), b = [&] { Disarm d; return FwArg(n2); }(); const u32 before = cur->copies; const int h = catno(q);
                Out r = c.run([&] { cat(q, a, [&](auto&& x) { using X = decltype(x);
                    switch (kind) {
                    case 0: { opt::option<Fw> o(static_cast<X>(x)); made(c, *o, n, h, "option(value)"); break; }
                    case 1: { opt::option<Fw> o = static_cast<X>(x); made(c, *o, n, h, "option = value"); break; }
                    case 2: { opt::option<Fw> o(std::in_place, static_cast<X>(x)); made(c, *o, n, h, "option(in_place, value)"); break; }
                    case 3: { auto o = opt::make_option<Fw>(static_cast<X>(x)); made(c, *o, n, h, "make_option<T>(value)"); break; }
                    case 4: { opt::option<Fw> o(std::in_place, static_cast<X>(x), b); made(c, *o, n * 10 + n2, FW_TWO + h * 4 + FW_L, "option(in_place, values)"); break; }
                    case 5: { opt::option<Fw> o(b, static_cast<X>(x)); made(c, *o, n2 * 10 + n, FW_TWO + FW_L * 4 + h, "option(values)"); break; }
                    case 6: { opt::option<Fw> o(std::in_place, {1, 2, 3}, static_cast<X>(x)); made(c, *o, 30 + n, FW_LIST + h, "option(in_place, list, value)"); break; }
                    default: { auto o = opt::make_option<Fw>({1, 2}, static_cast<X>(x)); made(c, *o, 20 + n, FW_LIST + h, "make_option<T>(list, value)"); } }
                }); });
                if (r == Out::ok) copies(c, before, 0);
                after(c, a, q, true, n, r);
            });
            add("assign", G_ASSIGN, 6, [](FwWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; const int k = c.in(0, K), q = c.in(1, 4), n = c.in(3, 9); const bool e = s.m[k] >= 0 || s.m[k] == -3; FwArg a = [&] { Disarm d; return FwArg(n); }(); const u32 before = cur->copies;
                Out r = c.run([&] { cat(q, a, [&](auto&& x) { auto& g = (s.o[k] = static_cast<decltype(x)>(x)); c.eq(&g == &s.o[k], "what an assignment returns"); }); });
                if (foreign()) return;
                if (r == Out::ok) { s.m[k] = n; Disarm d; made(c, *s.o[k], n, (e ? FW_ASG : 0) + catno(q), "option = value"); copies(c, before, 0); } else if (e) s.m[k] = -3; else s.m[k] = -1;
                after(c, a, q, true, n, r);
            });
            add("emplace", G_EMPLACE, 6, [](FwWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; const int k = c.in(0, K), q = c.in(1, 4), kind = c.in(2, 3), n = c.in(3, 9), n2 = c.in(4, 9), h = catno(q); FwArg a = [&] { Disarm d; return FwArg(n); }(), b = [&] { Disarm d; return FwArg(n2); }(); const u32 before = cur->copies;
                const int want = kind == 0 ? n : kind == 1 ? n2 * 10 + n : 20 + n, how = kind == 0 ? h : kind == 1 ? FW_TWO + FW_R * 4 + h : FW_LIST + h;
                Out r = c.run([&] { cat(q, a, [&](auto&& x) { using X = decltype(x); auto& g = kind == 0 ? s.o[k].emplace(static_cast<X>(x)) : kind == 1 ? s.o[k].emplace(std::move(b), static_cast<X>(x)) : s.o[k].emplace(std::initializer_list<int>{1, 2}, static_cast<X>(x)); c.eq(&g == &s.o[k].get_unchecked(), "what emplace returns"); }); });
                if (foreign()) return;
                s.m[k] = r == Out::ok ? want : -1; if (r == Out::ok) { made(c, *s.o[k], want, how, "emplace"); copies(c, before, 0); }
                after(c, a, q, true, n, r); if (kind == 1) after(c, b, 2, true, n2, r);
            });
            add("try_emplace", G_EMPLACE, 6, [](FwWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; const int k = c.in(0, K), q = c.in(1, 4), kind = c.in(2, 2), n = c.in(3, 9), n2 = c.in(4, 9), h = catno(q); FwArg a = [&] { Disarm d; return FwArg(n); }(), b = [&] { Disarm d; return FwArg(n2); }(); const u32 before = cur->copies; const bool e = s.o[k].has_value();
                const int want = kind == 0 ? n : n2 * 10 + n, how = kind == 0 ? h : FW_TWO + FW_CL * 4 + h;
                Out r = c.run([&] { cat(q, a, [&](auto&& x) { using X = decltype(x); auto& g = kind == 0 ? s.o[k].try_emplace(static_cast<X>(x)) : s.o[k].try_emplace(std::as_const(b), static_cast<X>(x)); c.eq(&g == &s.o[k].get_unchecked(), "what try_emplace returns"); }); });
                if (foreign()) return;
                if (!e) { s.m[k] = r == Out::ok ? want : -1; if (r == Out::ok) made(c, *s.o[k], want, how, "try_emplace"); }
                if (r == Out::ok) copies(c, before, 0);
                after(c, a, q, !e, n, r);
            });
            add("default", G_ACCESS | G_LOGIC, 8, [](FwWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; const int k = c.in(0, K), q = c.in(1, 4), kind = c.in(2, 9), n = c.in(3, 9), h = catno(q); const bool e = s.o[k].has_value(), rv = kind & 1; FwArg a = [&] { Disarm d; return FwArg(n); }(); const u32 before = cur->copies; auto& o = s.o[k]; const int was = e ? o->b.val : 0, hw = e ? o->how : 0;
                bool used = !e, moves = rv && e; u32 most = e && !rv ? 1 : 0; FwArg z = [&] { Disarm d; return FwArg(3); }();
                Out r = c.run([&] { cat(q, a, [&](auto&& x) { using X = decltype(x);
                    auto see = [&](const Fw& g) { if (e) made(c, g, was, hw, "the value of an engaged option"); else made(c, g, n, h, "the default"); };
                    switch (kind) {
                    case 0: see(std::as_const(o).value_or(static_cast<X>(x))); break;
                    case 1: see(std::move(o).value_or(static_cast<X>(x))); break;
                    case 2: see(std::as_const(o).value_or_construct(static_cast<X>(x))); break;
                    case 3: see(std::move(o).value_or_construct(static_cast<X>(x))); break;
                    case 4: see(std::as_const(o) | static_cast<X>(x)); break;
                    case 5: see(std::move(o) | static_cast<X>(x)); break;
                    case 6: { Fw g = std::as_const(o).value_or_construct({1, 2}, static_cast<X>(x)); if (e) made(c, g, was, hw, "the value"); else made(c, g, 20 + n, FW_LIST + h, "value_or_construct from a list"); break; }
                    case 7: { Fw g = std::move(o).value_or_construct(z, static_cast<X>(x)); if (e) made(c, g, was, hw, "the value"); else made(c, g, 30 + n, FW_TWO + FW_L * 4 + h, "value_or_construct"); break; }
                    default: { moves = false; most = 0; auto& g = (o |= static_cast<X>(x)); c.eq(&g == &o, "what |= returns"); } }
                }); });
                if (foreign()) return;
                if (kind == 8 && !e) { s.m[k] = r == Out::ok ? n : -1; if (r == Out::ok) made(c, *s.o[k], n, h, "|= value"); }
                if (r == Out::ok) { copies(c, before, most); if (moves) { Disarm d; SIM_CHECK(O_MOVE, o->b.val == MOVED, "not-moved", "an rvalue option was not moved from"); o.emplace(was); s.m[k] = was; } }
                else if (moves && e) { Disarm d; if (o.has_value()) s.m[k] = o->b.val; }
                after(c, a, q, used, n, r);
            });
            add("map_or", G_CALLBACK, 4, [](FwWorld& w, const Call& c) { // the default of map_or is handed on, too
                T& s = *w.ts[c.t]; const int k = c.in(0, K), q = c.in(1, 4), n = c.in(3, 9), qo = c.in(2, 4); const bool e = s.o[k].has_value(); const int was = e ? s.o[k]->b.val : 0; auto& o = s.o[k]; Fw a = [&] { Disarm d; return Fw(n); }(); const u32 before = cur->copies;
                Out r = c.run([&] { auto f = [&](const Fw& x) { fpoint(PT_CALL); return Fw(x.b.look("a callback") + 20); };
                    auto see = [&](const Fw& g) { Disarm d; c.eq(g.b.look("a read") == (e ? was + 20 : n), "map_or"); };
                    auto on = [&](auto&& x) { using X = decltype(x); switch (q) { case 0: see(static_cast<X>(x).map_or(a, f)); break; case 1: see(static_cast<X>(x).map_or(std::as_const(a), f)); break; case 2: see(static_cast<X>(x).map_or(std::move(a), f)); break; default: see(static_cast<X>(x).map_or(static_cast<const Fw&&>(a), f)); } };
                    switch (qo) { case 0: on(o); break; case 1: on(std::as_const(o)); break; case 2: on(std::move(o)); break; default: on(static_cast<const opt::option<Fw>&&>(o)); } });
                if (foreign() || r != Out::ok) return;
                copies(c, before, e || q == 2 ? 0 : 1); Disarm d; const int g = a.b.look("a read");
                SIM_CHECK(O_MOVE, !e && q == 2 ? g == MOVED : g == n, "argument", "the default of map_or holds %d afterwards, it was %d", g, n);
            });
            add("convert", G_CONV, 8, [](FwWorld& w, const Call& c) { // from an option of the argument
                T& s = *w.ts[c.t]; const int k = c.in(0, K), q = c.in(1, 4), kind = c.in(2, 4), n = s.ms; const bool e = s.o[k].has_value(), se = s.ms != -1; const u32 before = cur->copies; auto& o = s.o[k]; const int h = q == 2 ? FW_R : FW_CL; if (s.ms == MOVED) return;
                Out r = c.run([&] {
                    auto go = [&](auto&& x) { using X = decltype(x);
                        auto see = [&](const opt::option<Fw>& g) { Disarm d; c.eq(g.has_value() == se, "a conversion between options"); if (se && g.has_value()) made(c, *g, n, h, "a conversion between options"); };
                        switch (kind) { case 0: { opt::option<Fw> y(static_cast<X>(x)); see(y); break; } case 1: { opt::option<Fw> y = static_cast<X>(x); see(y); break; } case 2: o = static_cast<X>(x); break;
                        default: if constexpr (std::is_lvalue_reference_v<X>) see(opt::option_cast<Fw>(std::as_const(x))); else if constexpr (!std::is_const_v<std::remove_reference_t<X>>) see(opt::option_cast<Fw>(std::move(x))); else see(opt::option<Fw>(x)); } };
                    switch (q) { case 0: go(s.src); break; case 1: go(std::as_const(s.src)); break; case 2: go(std::move(s.src)); break; default: go(static_cast<const opt::option<FwArg>&&>(s.src)); }
                });
                if (foreign()) return;
                if (r == Out::ok) { copies(c, before, 0); if (kind == 2) { s.m[k] = se ? n : -1; if (se) made(c, *o, n, (e ? FW_ASG : 0) + h, "a converting assignment"); } }
                else if (kind == 2) s.m[k] = e ? -3 : -1;
                if (q == 2 && se) { Disarm d; c.eq(s.src.has_value(), "a converting move emptied its source", O_STATE); if (foreign()) return; const int g = s.src->val; if (r == Out::ok) SIM_CHECK(O_MOVE, g == MOVED, "not-moved", "an rvalue option was not moved from"); s.src.emplace(n); }
            });
            add("explicit", G_CTOR | G_CONV, 6, [](FwWorld& w, const Call& c) { // explicit conversions
                T& s = *w.ts[c.t]; const int q = c.in(1, 4), kind = c.in(2, 6); const bool opt = kind >= 3; const bool se = s.ms != -1; const int n = opt ? s.ms : c.in(3, 9); FwArg a = [&] { Disarm d; return FwArg(c.in(3, 9)); }(); const u32 before = cur->copies; const int h = opt ? (q == 2 ? FW_R : FW_CL) : catno(q); if (opt && s.ms == MOVED) return;
                Out r = c.run([&] {
                    auto see = [&](const opt::option<FwEx>& g) { Disarm d; const bool e = opt ? se : true; c.eq(g.has_value() == e, "an explicit conversion to an option"); if (e && g.has_value()) made(c, *g, n, h, "an explicit conversion to an option"); };
                    auto go = [&](auto&& x) { using X = decltype(x);
                        switch (kind) { case 3: case 4: { opt::option<FwEx> y(static_cast<X>(x)); see(y); break; }
                        default: if constexpr (std::is_lvalue_reference_v<X>) see(opt::option_cast<FwEx>(std::as_const(x))); else if constexpr (!std::is_const_v<std::remove_reference_t<X>>) see(opt::option_cast<FwEx>(std::move(x))); else see(opt::option<FwEx>(x)); } };
                    if (opt) switch (q) { case 0: go(s.src); break; case 1: go(std::as_const(s.src)); break; case 2: go(std::move(s.src)); break; default: go(static_cast<const opt::option<FwArg>&&>(s.src)); }
                    else cat(q, a, [&](auto&& x) { using X = decltype(x); if (kind == 0) see(opt::option<FwEx>(static_cast<X>(x))); else if (kind == 1) { opt::option<FwEx> y(std::in_place, static_cast<X>(x)); see(y); } else { opt::option<FwEx> y; y.emplace(static_cast<X>(x)); see(y); } });
                });
                if (foreign()) return;
                if (r == Out::ok) copies(c, before, 0);
                if (!opt) after(c, a, q, true, n, r);
                else if (q == 2 && se) { Disarm d; c.eq(s.src.has_value(), "a converting move emptied its source", O_STATE); if (foreign()) return; const int g = s.src->val; if (r == Out::ok) SIM_CHECK(O_MOVE, g == MOVED, "not-moved", "an rvalue option was not moved from"); s.src.emplace(n); }
            });
            add("callable", G_CALLBACK, 8, [](FwWorld& w, const Call& c) { // a callable is called as what it is, and what it returns is the value
                T& s = *w.ts[c.t]; const int k = c.in(0, K), q = c.in(1, 4), kind = c.in(2, 20), qo = c.in(3, 4); auto& o = s.o[k]; const bool e = o.has_value(); const int was = e ? o->b.val : 0; if (s.m[k] == -3) return;
                int how = 0; const void* seen = nullptr; const u32 before = cur->copies; bool called = e, moves = false; u32 most = 0; const void* want = e ? static_cast<const void*>(&o->b) : nullptr;
                Out r = c.run([&] {
                    auto with = [&](auto fn, auto&& use) { switch (q) { case 0: use(fn); break; case 1: use(std::as_const(fn)); break; case 2: use(std::move(fn)); break; default: use(static_cast<const decltype(fn)&&>(fn)); } };
                    auto on = [&](auto&& f) { switch (qo) { case 0: f(o); break; case 1: f(std::as_const(o)); break; case 2: f(std::move(o)); break; default: f(static_cast<const opt::option<Fw>&&>(o)); } };
                    auto mapped = [&](auto tag) { using R = typename decltype(tag)::type;
                        with(FwFn<R>{&how, &seen}, [&](auto&& fn) { on([&](auto&& x) { auto g = static_cast<decltype(x)>(x).map(static_cast<decltype(fn)>(fn)); static_assert(std::is_same_v<decltype(g), opt::option<R>>); Disarm d; c.eq(g.has_value() == e && (!e || FwFn<R>::read(*g) == FwFn<R>::read(FwFn<R>::make(was))), "map does not give what its function returned"); }); }); };
                    switch (kind) {
                    case 0: mapped(Type<FwPod>{}); break; case 1: mapped(Type<FwPodN>{}); break; case 2: mapped(Type<FwCtor>{}); break; case 3: mapped(Type<FwCtorN>{}); break; case 4: mapped(Type<Fw>{}); break;
                    case 5: mapped(Type<FwAgg>{}); break; case 6: mapped(Type<FwAggN>{}); break; case 7: mapped(Type<FwTNi>{}); break; case 8: mapped(Type<int>{}); break; case 9: { mapped(Type<std::pair<bool, FwPod>>{}); break; } case 10: mapped(Type<std::array<Fw, 2>>{}); break;
                    case 11: with(FwFn<int>{&how, &seen}, [&](auto&& fn) { on([&](auto&& x) { int g = static_cast<decltype(x)>(x).map_or(-7, static_cast<decltype(fn)>(fn)); c.eq(g == (e ? was : -7), "map_or does not give what its function returned"); }); }); break;
                    case 12: with(FwFn<int>{&how, &seen}, [&](auto&& fn) { on([&](auto&& x) { int g = static_cast<decltype(x)>(x).map_or_else([] { return -8; }, static_cast<decltype(fn)>(fn)); c.eq(g == (e ? was : -8), "map_or_else does not give what its function returned"); }); }); break;
                    case 14: with(FwFn<bool>{&how, &seen}, [&](auto&& fn) { on([&](auto&& x) { bool g = static_cast<decltype(x)>(x).has_value_and(static_cast<decltype(fn)>(fn)); c.eq(g == (e && was % 2), "has_value_and"); }); }); break;
                    case 15: { const bool keeps = e && was % 2; moves = keeps && qo == 2; most = keeps && qo != 2; with(FwFn<bool>{&how, &seen}, [&](auto&& fn) { on([&](auto&& x) { auto g = static_cast<decltype(x)>(x).filter(static_cast<decltype(fn)>(fn)); Disarm d; c.eq(g.has_value() == keeps && (!keeps || g->b.look("a read") == was), "filter"); }); }); break; }
                    case 16: called = true; want = e ? want : nullptr; if (e) { called = false; } with(FwFn<int>{&how, &seen}, [&](auto&& fn) { on([&](auto&& x) { int g = static_cast<decltype(x)>(x).map_or_else(static_cast<decltype(fn)>(fn), [](const Fw&) { return -9; }); c.eq(g == (e ? -9 : 77), "map_or_else does not give what its functions returned"); }); }); break;
                    case 17: called = !e; want = nullptr; moves = e && qo == 2; most = e && qo != 2; with(FwFn<opt::option<Fw>>{&how, &seen}, [&](auto&& fn) { on([&](auto&& x) { auto g = static_cast<decltype(x)>(x).or_else(static_cast<decltype(fn)>(fn)); Disarm d; c.eq(g.has_value() && g->b.look("a read") == (e ? was : 77), "or_else"); }); }); break;
                    case 18: with(FwFn<opt::option<int>>{&how, &seen}, [&](auto&& fn) { on([&](auto&& x) { auto g = static_cast<decltype(x)>(x).and_then(static_cast<decltype(fn)>(fn)); c.eq(g == (e ? opt::option<int>(was) : opt::option<int>()), "and_then"); }); }); break;
                    case 19: with(FwFn<int>{&how, &seen}, [&](auto&& fn) { on([&](auto&& x) { auto g = opt::zip_with(static_cast<decltype(fn)>(fn), static_cast<decltype(x)>(x)); c.eq(g == (e ? opt::option<int>(was) : opt::option<int>()), "zip_with"); }); }); break;
                    default: with(FwFn<FwCtor>{&how, &seen}, [&](auto&& fn) { on([&](auto&& x) { auto& g = static_cast<decltype(x)>(x).inspect(static_cast<decltype(fn)>(fn)); c.eq(std::addressof(g) == &o, "what inspect returns"); }); }); }
                });
                if (foreign()) return;
                if (how || r == Out::ok) { SIM_CHECK(O_CALLBACK, (how != 0) == called, "callback-count", "the callable was%s called", how ? "" : " not"); if (foreign()) return; }
                if (how) { SIM_CHECK(O_CALLBACK | O_MOVE, how == q + 1, "callable-category", "the callable was called as category %d, it was passed as %d", how, q + 1); SIM_CHECK(O_CALLBACK, seen == want, "callback-argument", "the callable did not get the contained object"); }
                if (r == Out::ok) copies(c, before, most);
                if (moves) { Disarm d; c.eq(o.has_value(), "a callback on an rvalue emptied the option", O_STATE); if (foreign()) return; if (r == Out::ok) SIM_CHECK(O_MOVE, o->b.val == MOVED, "not-moved", "an rvalue option was not moved from"); o.emplace(was); s.m[k] = was; }
            });
            add("aggregate", G_EMPLACE | G_CTOR, 4, [](FwWorld& w, const Call& c) { // the parts of an aggregate
                T& s = *w.ts[c.t]; const int q = c.in(1, 4), kind = c.in(2, 3), n = c.in(3, 9), n2 = c.in(4, 9), h = catno(q); FwArg a = [&] { Disarm d; return FwArg(n); }(), b = [&] { Disarm d; return FwArg(n2); }(); const u32 before = cur->copies;
                bool put = false; const bool had = s.g.has_value();
                Out r = c.run([&] { cat(q, a, [&](auto&& x) { using X = decltype(x);
                    switch (kind) {
                    case 0: put = true; s.g.emplace(static_cast<X>(x), std::move(b)); break;
                    case 1: { opt::option<FwAgg> g(std::in_place, static_cast<X>(x), std::move(b)); made(c, g->a, n, h, "the first part"); made(c, g->c, n2, FW_R, "the second part"); break; }
                    default: { auto g = opt::make_option<FwAgg>(static_cast<X>(x), std::move(b)); made(c, g->a, n, h, "the first part"); made(c, g->c, n2, FW_R, "the second part"); } }
                }); });
                if (foreign()) return;
                (void)had;
                if (put) { s.ma = r == Out::ok ? n : -1; s.mc = r == Out::ok ? n2 : -1; if (r == Out::ok) { made(c, s.g->a, n, h, "the first part"); made(c, s.g->c, n2, FW_R, "the second part"); } }
                if (r == Out::ok) { copies(c, before, 0); after(c, a, q, true, n, r); after(c, b, 2, true, n2, r); }
            });
            return v;
        }();
        return t;
    }
};
SIM_MINI("forwarding", TG_CALL | TG_TRACKED, 6, FwWorld);
} // namespace sim
