// zip, zip_with, unzip, flatten and make_option: several options combined into one, or one taken apart, with failures
// half-way through.
#include "mini.hpp"
namespace sim {
struct Obj { // called through pointers to members
    Tr<131072> b;
    explicit Obj(int v) : b(v) {}
    Obj(const Obj& o) : b(o.b) {}
    Obj(Obj&& o) : b(static_cast<Tr<131072>&&>(o.b)) {}
    Obj& operator=(const Obj& o) { b = o.b; return *this; }
    Obj& operator=(Obj&& o) { b = static_cast<Tr<131072>&&>(o.b); return *this; }
    int add(const TF& x) const { fpoint(PT_CALL); return b.look("a call") * 10 + x.look("a call"); }
    int twice() & { fpoint(PT_CALL); return 1000 + b.look("a call"); }
    int twice() const& { fpoint(PT_CALL); return 2000 + b.look("a call"); }
    int twice() && { fpoint(PT_CALL); return 3000 + b.look("a call"); }
};
inline int zv(const TF& x) { return x.look("a read"); }
inline int zv(const TN& x) { return x.look("a read"); }
inline int zv(const TFN& x) { return x.look("a read"); }
inline int zv(const TM& x) { return x.b.look("a read"); }
inline int zv(const Obj& x) { return x.b.look("a read"); }
inline int zv(const std::unique_ptr<int>& x) { return x ? *x : int(MOVED); }
inline int zv(const std::string& x) { if (x.empty()) return MOVED; for (int k = 0; k < 7; ++k) if (x == std::string(30, char('a' + k))) return k; return BAD; }
inline int zv(int x) { return x; }
template<class V> V zmake(int v) { if constexpr (std::is_same_v<V, std::unique_ptr<int>>) return std::make_unique<int>(v); else if constexpr (std::is_same_v<V, std::string>) return std::string(30, char('a' + v)); else return V(v); }
template<class V> inline constexpr bool zcopy = std::is_copy_constructible_v<V>;
template<class V> inline constexpr bool zmoves = !std::is_same_v<V, int>;

// one option with its model
template<class V> struct Slot {
    opt::option<V> o; bool eng = false; int val = 0;
    void set(int v) { Disarm d; if (v < 0) o.reset(); else o.emplace(zmake<V>(v)); eng = v >= 0; val = v; }
    void check(const char* what) const {
        SIM_CHECK(O_STATE | O_OTHER, o.has_value() == eng, "operand-state", "the operand %s is %s afterwards, expected %s", what, o.has_value() ? "engaged" : "empty", eng ? "engaged" : "empty");
        if (foreign() || !eng) return;
        int v = zv(o.get_unchecked()); SIM_CHECK(O_OTHER | O_MOVE, val == ANY || v == val, "operand-value", "the operand %s holds %d afterwards, expected %d", what, v, val);
        log_event(u64(v + 3));
    }
    void resync() { Disarm d; if (eng && o.has_value()) val = zv(o.get_unchecked()); }
    void moved(bool success, bool was_rvalue) { if (!was_rvalue || !eng) return; if (success) { if (zmoves<V>) val = MOVED; } else resync(); }
};
// calls f with x as lvalue, const lvalue, rvalue or const rvalue
template<class O, class F> decltype(auto) cat(int k, O& x, F&& f) {
    using V = typename O::value_type;
    if constexpr (zcopy<V>) switch (k & 3) { case 0: return f(x); case 1: return f(std::as_const(x)); case 2: return f(std::move(x)); default: return f(std::move(std::as_const(x))); }
    else return f(std::move(x));
}
template<class V> bool is_rv(int k) { return zcopy<V> ? (k & 3) == 2 : true; }

struct ZipWorld final : MiniWorld<ZipWorld> {
    struct T {
        Slot<TF> a[2]; Slot<TN> b[2]; Slot<int> c; Slot<TM> m; Slot<std::string> s; Slot<std::unique_ptr<int>> u; Slot<Obj> x; Slot<TFN> n;
        opt::option<opt::option<TF>> n2; int l2 = 0, v2 = 0;                      // l: how many levels are engaged
        opt::option<opt::option<opt::option<TN>>> n3; int l3 = 0, v3 = 0;
        opt::option<opt::option<opt::option<int>>> ni; int li = 0, vi = 0;
        opt::option<std::tuple<TF, TN, std::string>> tp; bool te = false; int t0 = 0, t1 = 0, t2 = 0;
        opt::option<std::pair<TF, TM>> pr; bool pe = false; int p0 = 0, p1 = 0;
        opt::option<std::array<TF, 3>> ar; bool ae = false; int a3[3] = {};
        TF outside{4}; int outv = 4;
    };
    T* ts[3] = {};
    ~ZipWorld() override { for (T* t : ts) delete t; }
    void init(int t, const Plan& p) {
        T& s = *(ts[t] = new T); u64 r = mix(p.cfg[0] + 65536u * p.cfg[1], u64(t));
        auto next = [&] { r = mix(r, 5); int v = int(r >> 7 & 7); return v >= 6 ? -1 : v; };
        s.a[0].set(next()); s.a[1].set(next()); s.b[0].set(next()); s.b[1].set(next()); s.c.set(next()); s.m.set(next()); s.s.set(next()); s.u.set(next()); s.x.set(next()); s.n.set(next());
    }
    u64 state_key(int t) const { const T& s = *ts[t]; return u64(s.a[0].eng) + 2u * s.a[1].eng + 4u * s.b[0].eng + 8u * s.b[1].eng + 16u * s.c.eng + 32u * s.m.eng + 64u * s.te + 128u * s.pe + 256u * s.ae + 512u * u64(s.l2) + 2048u * u64(s.l3); }
    static void lev(bool ok) { SIM_CHECK(O_STATE | O_OTHER, ok, "operand-state", "a nested operand is engaged to another depth afterwards"); }
    static void val(int got, int want, const char* what) { SIM_CHECK(O_OTHER | O_MOVE, want == ANY || got == want, "operand-value", "%s holds %d afterwards, expected %d", what, got, want); log_event(u64(got)); }
    void check(int t) {
        T& s = *ts[t];
        s.a[0].check("a0"); s.a[1].check("a1"); s.b[0].check("b0"); s.b[1].check("b1"); s.c.check("c"); s.m.check("m"); s.s.check("s"); s.u.check("u"); s.x.check("x"); s.n.check("n");
        if (foreign()) return;
        lev(s.n2.has_value() == (s.l2 > 0) && (!s.n2 || s.n2->has_value() == (s.l2 > 1))); if (foreign()) return; if (s.l2 > 1) val(zv(**s.n2), s.v2, "the nested option");
        lev(s.n3.has_value() == (s.l3 > 0) && (!s.n3 || s.n3->has_value() == (s.l3 > 1)) && (s.l3 < 2 || (*s.n3)->has_value() == (s.l3 > 2))); if (foreign()) return; if (s.l3 > 2) val(zv(***s.n3), s.v3, "the nested option");
        lev(s.ni.has_value() == (s.li > 0) && (!s.ni || s.ni->has_value() == (s.li > 1)) && (s.li < 2 || (*s.ni)->has_value() == (s.li > 2))); if (foreign()) return; if (s.li > 2) val(***s.ni, s.vi, "the nested option");
        lev(s.tp.has_value() == s.te && s.pr.has_value() == s.pe && s.ar.has_value() == s.ae); if (foreign()) return;
        if (s.te) { val(zv(std::get<0>(*s.tp)), s.t0, "element 0"); val(zv(std::get<1>(*s.tp)), s.t1, "element 1"); val(zv(std::get<2>(*s.tp)), s.t2, "element 2"); }
        if (s.pe) { val(zv(s.pr->first), s.p0, "element 0"); val(zv(s.pr->second), s.p1, "element 1"); }
        if (s.ae) for (unsigned i = 0; i < 3; ++i) val(zv((*s.ar)[i]), s.a3[i], "an element");
        val(zv(s.outside), s.outv, "the object that is only referred to");
    }
    static void state(bool got, bool want, const char* what) { log_event(got); SIM_CHECK(O_RESULT, got == want, "combined-state", "the result of %s is %s, expected %s", what, got ? "engaged" : "empty", want ? "engaged" : "empty"); }
    static void value(int got, int want, const char* what) { log_event(u64(got)); SIM_CHECK(O_RESULT, want == ANY || got == want, "combined-value", "%s gives %d, expected %d", what, got, want); }
    // zip of two slots
    template<class A, class B> static void zip2(const Call& c, Slot<A>& a, Slot<B>& b) {
        const int ka = c.a(2), kb = c.a(3); const int va = a.val, vb = b.val; const bool all = a.eng && b.eng; const bool same = static_cast<void*>(&a) == static_cast<void*>(&b);
        const bool ra = !same && is_rv<A>(ka), rb = !same && is_rv<B>(kb);
        Out r = c.run([&] {
            cat(same ? ka & 1 : ka, a.o, [&](auto&& x) { cat(same ? kb & 1 : kb, b.o, [&](auto&& y) {
                auto g = opt::zip(static_cast<decltype(x)>(x), static_cast<decltype(y)>(y));
                static_assert(std::is_same_v<decltype(g), opt::option<std::tuple<A, B>>>);
                Disarm d; state(g.has_value(), all, "zip"); if (foreign() || !all) return; value(zv(std::get<0>(*g)), va, "element 0 of zip"); value(zv(std::get<1>(*g)), vb, "element 1 of zip");
            }); });
        });
        if (all) { a.moved(r == Out::ok, ra); b.moved(r == Out::ok, rb); }
    }
    template<class A, class B, class C> static void zip3(const Call& c, Slot<A>& a, Slot<B>& b, Slot<C>& e) {
        const int ka = c.a(2), kb = c.a(3), ke = c.a(4); const int va = a.val, vb = b.val, ve = e.val; const bool all = a.eng && b.eng && e.eng;
        Out r = c.run([&] {
            cat(ka, a.o, [&](auto&& x) { cat(kb, b.o, [&](auto&& y) { cat(ke, e.o, [&](auto&& z) {
                auto g = opt::zip(static_cast<decltype(x)>(x), static_cast<decltype(y)>(y), static_cast<decltype(z)>(z));
                Disarm d; state(g.has_value(), all, "zip"); if (foreign() || !all) return; value(zv(std::get<0>(*g)), va, "element 0 of zip"); value(zv(std::get<1>(*g)), vb, "element 1 of zip"); value(zv(std::get<2>(*g)), ve, "element 2 of zip");
            }); }); });
        });
        if (all) { a.moved(r == Out::ok, is_rv<A>(ka)); b.moved(r == Out::ok, is_rv<B>(kb)); e.moved(r == Out::ok, is_rv<C>(ke)); }
    }
    template<class X> static int category() { return std::is_lvalue_reference_v<X> ? (std::is_const_v<std::remove_reference_t<X>> ? 1 : 0) : (std::is_const_v<std::remove_reference_t<X>> ? 3 : 2); }
    struct Fn { // a function that is itself passed in several ways
        int* calls; int* how;
        template<class F> int go(int h, F&& f) const { ++*calls; *how = h; fpoint(PT_CALL); return f(); }
        template<class X, class Y> int operator()(X&& x, Y&& y) & { return go(0, [&] { return zv(x) * 10 + zv(y) + 100 * category<X&&>() + 1000 * category<Y&&>(); }); }
        template<class X, class Y> int operator()(X&& x, Y&& y) const& { return go(1, [&] { return zv(x) * 10 + zv(y) + 100 * category<X&&>() + 1000 * category<Y&&>(); }); }
        template<class X, class Y> int operator()(X&& x, Y&& y) && { return go(2, [&] { return zv(x) * 10 + zv(y) + 100 * category<X&&>() + 1000 * category<Y&&>(); }); }
    };
    template<class A, class B> static void with2(const Call& c, Slot<A>& a, Slot<B>& b) {
        int ka = c.a(2) & 3, kb = c.a(3) & 3, kf = c.in(4, 3), kind = c.a(4) / 3 % 5; const bool all = a.eng && b.eng; int calls = 0, how = -1; Fn fn{&calls, &how};
        if (!zcopy<A>) ka = 2; if (!zcopy<B>) kb = 2;
        const int want = a.val * 10 + b.val + 100 * ka + 1000 * kb; const void* pa = all ? static_cast<const void*>(&a.o.get_unchecked()) : nullptr; bool ranOk = false; int seen = 0;
        Out r = c.run([&] {
            cat(ka, a.o, [&](auto&& x) { cat(kb, b.o, [&](auto&& y) {
                using X = decltype(x); using Y = decltype(y);
                if (kind == 0) {
                    opt::option<int> g = kf == 0 ? opt::zip_with(fn, static_cast<X>(x), static_cast<Y>(y)) : kf == 1 ? opt::zip_with(std::as_const(fn), static_cast<X>(x), static_cast<Y>(y)) : opt::zip_with(std::move(fn), static_cast<X>(x), static_cast<Y>(y));
                    state(g.has_value(), all, "zip_with"); if (foreign() || !all) return; value(*g, want, "zip_with");
                } else if (kind == 1) { // nothing returned
                    opt::zip_with([&](auto&& p, auto&& q) { ++calls; fpoint(PT_CALL); seen = zv(p) * 10 + zv(q); ranOk = true; }, static_cast<X>(x), static_cast<Y>(y));
                    SIM_CHECK(O_CALLBACK, ranOk == all, "zip-with-void", "a function without result was%s called", ranOk ? "" : " not"); if (all) value(seen, a.val * 10 + b.val, "zip_with without result");
                } else if (kind == 2) { // a reference returned
                    auto g = opt::zip_with([&](auto&& p, auto&&) -> const A& { ++calls; fpoint(PT_CALL); return p; }, static_cast<X>(x), static_cast<Y>(y));
                    static_assert(std::is_same_v<decltype(g), opt::option<const A&>>);
                    state(g.has_value(), all, "zip_with"); SIM_CHECK(O_RESULT, g.ptr_or_null() == pa, "combined-address", "zip_with does not refer to the object the function returned");
                } else if (kind == 3) { // an option returned
                    auto g = opt::zip_with([&](auto&& p, auto&&) { ++calls; fpoint(PT_CALL); return zv(p) % 2 ? opt::option<int>{zv(p)} : opt::option<int>{}; }, static_cast<X>(x), static_cast<Y>(y));
                    static_assert(std::is_same_v<decltype(g), opt::option<opt::option<int>>>);
                    state(g.has_value(), all, "zip_with returning an option"); if (foreign() || !all) return; state(g->has_value(), a.val % 2, "the option returned through zip_with"); if (a.val % 2) value(**g, a.val, "the option returned through zip_with");
                } else { // a tracked object returned
                    auto g = opt::zip_with([&](auto&& p, auto&& q) { ++calls; fpoint(PT_CALL); return TF(zv(p) * 10 + zv(q)); }, static_cast<X>(x), static_cast<Y>(y));
                    Disarm d; state(g.has_value(), all, "zip_with"); if (foreign() || !all) return; value(zv(*g), a.val * 10 + b.val, "zip_with");
                }
            }); });
        });
        SIM_CHECK(O_CALLBACK, calls == (all ? 1 : 0), "zip-with-calls", "the function was called %d times, expected %d", calls, all ? 1 : 0);
        if (kind == 0 && calls) SIM_CHECK(O_CALLBACK, how == kf, "zip-with-category", "the function was not called as it was passed");
        (void)r;
    }
    template<class O, class F> static void flat(const Call& c, O& o, int levels, int depth, int& v, F&& read) {
        const int k = c.a(2) & 3; const bool e = levels == depth; const void* where = nullptr; int was = v;
        using V = std::remove_reference_t<decltype(read(o))>;
        if (e) where = &read(o);
        bool built = true; const u64 pts = cur->points;
        Out r = c.run([&] {
            if (k == 0) { auto g = opt::flatten(o); static_assert(std::is_same_v<decltype(g), opt::option<V&>>); state(g.has_value(), e, "flatten"); SIM_CHECK(O_RESULT, g.ptr_or_null() == where, "flat-address", "flatten of an lvalue does not refer to the contained value"); built = false; }
            else if (k == 1) { auto g = opt::flatten(std::as_const(o)); static_assert(std::is_same_v<decltype(g), opt::option<const V&>>); state(g.has_value(), e, "flatten"); SIM_CHECK(O_RESULT, g.ptr_or_null() == where, "flat-address", "flatten of a const lvalue does not refer to the contained value"); built = false; }
            else if (k == 2) { auto g = opt::flatten(std::move(o)); static_assert(std::is_same_v<decltype(g), opt::option<V>>); Disarm d; state(g.has_value(), e, "flatten"); if (foreign() || !e) return; value(zv(*g), was, "flatten"); }
            else { auto g = opt::flatten(std::move(std::as_const(o))); Disarm d; state(g.has_value(), e, "flatten"); if (foreign() || !e) return; value(zv(*g), was, "flatten"); }
        });
        if (!built) SIM_CHECK(O_OTHER, pts == cur->points, "flat-copies", "flatten of an lvalue used the contained object");
        if (e && k == 2) { if (r == Out::ok) { if (zmoves<V>) v = MOVED; } else { Disarm d; v = zv(read(o)); } }
    }
    static const std::vector<Op>& table() {
        static const std::vector<Op> t = {
            {{"set", G_ASSIGN, 10}, [](ZipWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int v = c.a(2) % 4 == 0 ? -1 : c.in(3, 6);
                switch (c.in(4, 10)) { case 0: s.a[0].set(v); break; case 1: s.a[1].set(v); break; case 2: s.b[0].set(v); break; case 3: s.b[1].set(v); break; case 4: s.c.set(v); break; case 5: s.m.set(v); break; case 6: s.s.set(v); break; case 7: s.u.set(v); break; case 8: s.x.set(v); break; default: s.n.set(v); }
            }},
            {{"set_nested", G_ASSIGN, 4}, [](ZipWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int l = c.in(2, 4), v = c.in(3, 6); Disarm d;
                switch (c.in(4, 3)) {
                case 0: l %= 3; s.n2.reset(); s.l2 = l; s.v2 = v; if (l > 0) s.n2.emplace(); if (l > 1) s.n2->emplace(v); break;
                case 1: s.n3.reset(); s.l3 = l; s.v3 = v; if (l > 0) s.n3.emplace(); if (l > 1) s.n3->emplace(); if (l > 2) (*s.n3)->emplace(v); break;
                default: s.ni.reset(); s.li = l; s.vi = v; if (l > 0) s.ni.emplace(); if (l > 1) s.ni->emplace(); if (l > 2) (*s.ni)->emplace(v);
                }
            }},
            {{"set_tuple", G_ASSIGN, 5}, [](ZipWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int v = c.in(3, 6); bool e = c.a(2) % 4; Disarm d;
                switch (c.in(4, 3)) {
                case 0: s.tp.reset(); s.te = e; s.t0 = v; s.t1 = (v + 1) % 6; s.t2 = (v + 2) % 6; if (e) s.tp.emplace(TF(s.t0), TN(s.t1), zmake<std::string>(s.t2)); break;
                case 1: s.pr.reset(); s.pe = e; s.p0 = v; s.p1 = v + 1; if (e) s.pr.emplace(TF(v), TM(v + 1)); break;
                default: s.ar.reset(); s.ae = e; for (int i = 0; i < 3; ++i) s.a3[i] = v + i; if (e) s.ar = std::array<TF, 3>{TF(v), TF(v + 1), TF(v + 2)};
                }
            }},
            {{"zip_ab", G_SPECIAL, 5}, [](ZipWorld& w, const Call& c) { T& s = *w.ts[c.t]; zip2(c, s.a[c.in(0, 2)], s.b[c.in(1, 2)]); }},
            {{"zip_aa", G_SPECIAL, 3}, [](ZipWorld& w, const Call& c) { T& s = *w.ts[c.t]; zip2(c, s.a[c.in(0, 2)], s.a[c.in(1, 2)]); }},
            {{"zip_move_only", G_SPECIAL, 3}, [](ZipWorld& w, const Call& c) { T& s = *w.ts[c.t]; if (c.a(0) % 2) zip2(c, s.m, s.u); else zip2(c, s.a[0], s.m); }},
            {{"zip_mixed", G_SPECIAL, 3}, [](ZipWorld& w, const Call& c) { T& s = *w.ts[c.t]; if (c.a(0) % 2) zip3(c, s.a[0], s.c, s.s); else zip3(c, s.n, s.b[0], s.a[1]); }},
            {{"zip_one", G_SPECIAL, 2}, [](ZipWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; Slot<TF>& a = s.a[c.in(0, 2)]; int k = c.a(2); const int v = a.val;
                Out r = c.run([&] { cat(k, a.o, [&](auto&& x) { auto g = opt::zip(static_cast<decltype(x)>(x)); static_assert(std::is_same_v<decltype(g), opt::option<std::tuple<TF>>>); Disarm d; state(g.has_value(), a.eng, "zip of one option"); if (!foreign() && a.eng) value(zv(std::get<0>(*g)), v, "zip of one option"); }); });
                a.moved(r == Out::ok, is_rv<TF>(k));
            }},
            {{"zip_reference", G_SPECIAL, 2}, [](ZipWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; opt::option<TF&> o; if (c.a(2) % 3) o = s.outside; const bool e = o.has_value() && s.c.eng;
                c.quiet([&] { auto g = opt::zip(o, s.c.o); static_assert(std::is_same_v<decltype(g), opt::option<std::tuple<TF&, int>>>); state(g.has_value(), e, "zip of a reference"); if (foreign() || !e) return; SIM_CHECK(O_RESULT, &std::get<0>(*g) == &s.outside, "combined-address", "zip of a reference refers to another object"); value(std::get<1>(*g), s.c.val, "zip of a reference"); });
            }},
            {{"with_ab", G_SPECIAL, 5}, [](ZipWorld& w, const Call& c) { T& s = *w.ts[c.t]; with2(c, s.a[c.in(0, 2)], s.b[c.in(1, 2)]); }},
            {{"with_aa", G_SPECIAL, 2}, [](ZipWorld& w, const Call& c) { T& s = *w.ts[c.t]; with2(c, s.a[c.in(0, 2)], s.a[c.in(1, 2)]); }},
            {{"with_move_only", G_SPECIAL, 2}, [](ZipWorld& w, const Call& c) { T& s = *w.ts[c.t]; with2(c, s.m, s.n); }},
            {{"with_member", G_SPECIAL, 3}, [](ZipWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; Slot<TF>& a = s.a[c.in(0, 2)]; const bool e = s.x.eng && a.eng;
                c.run([&] {
                    switch (c.in(2, 3)) {
                    case 0: { opt::option<int> g = opt::zip_with(&Obj::add, s.x.o, a.o); state(g.has_value(), e, "zip_with of a member function"); if (!foreign() && e) value(*g, s.x.val * 10 + a.val, "zip_with of a member function"); break; }
                    case 1: { opt::option<int> g = opt::zip_with(static_cast<int (Obj::*)() &&>(&Obj::twice), std::move(s.x.o)); state(g.has_value(), s.x.eng, "zip_with of a member function"); if (!foreign() && s.x.eng) value(*g, 3000 + s.x.val, "zip_with of a member function"); break; }
                    default: { auto g = opt::zip_with(&Obj::b, s.x.o); state(g.has_value(), s.x.eng, "zip_with of a member"); if (!foreign() && s.x.eng) SIM_CHECK(O_RESULT, g.ptr_or_null() == &s.x.o.get_unchecked().b, "combined-address", "zip_with of a member does not refer to the member"); }
                    }
                });
            }},
            {{"unzip_tuple", G_SPECIAL, 5}, [](ZipWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; const int k = c.a(2); const bool e = s.te;
                Out r = c.run([&] { cat(k, s.tp, [&](auto&& x) {
                    auto g = opt::unzip(static_cast<decltype(x)>(x)); static_assert(std::is_same_v<decltype(g), std::tuple<opt::option<TF>, opt::option<TN>, opt::option<std::string>>>);
                    Disarm d; state(std::get<0>(g).has_value(), e, "unzip"); state(std::get<1>(g).has_value(), e, "unzip"); state(std::get<2>(g).has_value(), e, "unzip"); if (foreign() || !e) return;
                    value(zv(*std::get<0>(g)), s.t0, "element 0 of unzip"); value(zv(*std::get<1>(g)), s.t1, "element 1 of unzip"); value(zv(*std::get<2>(g)), s.t2, "element 2 of unzip");
                }); });
                if (e && (k & 3) == 2) { if (r == Out::ok) s.t0 = s.t1 = s.t2 = MOVED; else { Disarm d; s.t0 = zv(std::get<0>(*s.tp)); s.t1 = zv(std::get<1>(*s.tp)); s.t2 = zv(std::get<2>(*s.tp)); } }
            }},
            {{"unzip_pair", G_SPECIAL, 3}, [](ZipWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; const bool e = s.pe; const int p0 = s.p0, p1 = s.p1;
                Out r = c.run([&] { auto g = opt::unzip(std::move(s.pr)); static_assert(std::is_same_v<decltype(g), std::pair<opt::option<TF>, opt::option<TM>>>); Disarm d; state(g.first.has_value(), e, "unzip"); state(g.second.has_value(), e, "unzip"); if (foreign() || !e) return; value(zv(*g.first), p0, "first of unzip"); value(zv(*g.second), p1, "second of unzip"); });
                if (e) { if (r == Out::ok) s.p0 = s.p1 = MOVED; else { Disarm d; s.p0 = zv(s.pr->first); s.p1 = zv(s.pr->second); } }
            }},
            {{"unzip_array", G_SPECIAL, 3}, [](ZipWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; const int k = c.a(2); const bool e = s.ae; const int was[3] = {s.a3[0], s.a3[1], s.a3[2]};
                Out r = c.run([&] { cat(k, s.ar, [&](auto&& x) { auto g = opt::unzip(static_cast<decltype(x)>(x)); static_assert(std::is_same_v<decltype(g), std::array<opt::option<TF>, 3>>); Disarm d; for (unsigned i = 0; i < 3; ++i) { state(g[i].has_value(), e, "unzip"); if (!foreign() && e) value(zv(*g[i]), was[i], "an element of unzip"); } }); });
                if (e && (k & 3) == 2) { Disarm d; for (unsigned i = 0; i < 3; ++i) s.a3[i] = r == Out::ok ? int(MOVED) : zv((*s.ar)[i]); }
            }},
            {{"zip_unzip", G_SPECIAL, 3}, [](ZipWorld& w, const Call& c) { // there and back again
                T& s = *w.ts[c.t]; Slot<TF>& a = s.a[c.in(0, 2)]; Slot<TN>& b = s.b[c.in(1, 2)]; const bool e = a.eng && b.eng;
                c.run([&] { auto g = opt::unzip(opt::zip(std::as_const(a.o), std::as_const(b.o))); Disarm d; state(std::get<0>(g).has_value(), e, "unzip(zip)"); state(std::get<1>(g).has_value(), e, "unzip(zip)"); if (foreign() || !e) return; value(zv(*std::get<0>(g)), a.val, "unzip(zip)"); value(zv(*std::get<1>(g)), b.val, "unzip(zip)"); });
            }},
            {{"flatten_two", G_SPECIAL, 4}, [](ZipWorld& w, const Call& c) { T& s = *w.ts[c.t]; flat(c, s.n2, s.l2, 2, s.v2, [](auto& o) -> TF& { return o.get_unchecked().get_unchecked(); }); }},
            {{"flatten_three", G_SPECIAL, 4}, [](ZipWorld& w, const Call& c) { T& s = *w.ts[c.t]; flat(c, s.n3, s.l3, 3, s.v3, [](auto& o) -> TN& { return o.get_unchecked().get_unchecked().get_unchecked(); }); }},
            {{"flatten_numbers", G_SPECIAL, 3}, [](ZipWorld& w, const Call& c) { T& s = *w.ts[c.t]; flat(c, s.ni, s.li, 3, s.vi, [](auto& o) -> int& { return o.get_unchecked().get_unchecked().get_unchecked(); }); }},
            {{"flatten_one", G_SPECIAL, 2}, [](ZipWorld& w, const Call& c) { T& s = *w.ts[c.t]; Slot<TF>& a = s.a[c.in(0, 2)]; flat(c, a.o, a.eng, 1, a.val, [](auto& o) -> TF& { return o.get_unchecked(); }); }},
            {{"make", G_SPECIAL, 4}, [](ZipWorld& w, const Call& c) {
                (void)w; int v = c.in(3, 6); TF x = [&] { Disarm d; return TF(v); }(); int after = v;
                Out r = c.run([&] {
                    switch (c.in(2, 5)) {
                    case 0: { auto g = opt::make_option(x); static_assert(std::is_same_v<decltype(g), opt::option<TF>>); state(g.has_value(), true, "make_option"); Disarm d; if (!foreign()) value(zv(*g), v, "make_option"); break; }
                    case 1: { auto g = opt::make_option(std::move(x)); state(g.has_value(), true, "make_option"); Disarm d; if (!foreign()) value(zv(*g), v, "make_option"); after = MOVED; break; }
                    case 2: { auto g = opt::make_option<std::pair<TF, int>>(std::as_const(x), 5); state(g.has_value(), true, "make_option"); Disarm d; if (!foreign()) value(zv(g->first) + g->second, v + 5, "make_option"); break; }
                    case 3: { auto g = opt::make_option<TIL>({v, 1, 2}, 4); state(g.has_value(), true, "make_option"); Disarm d; if (!foreign()) value(g->b.look("a read"), v + 7, "make_option of an initializer list"); break; }
                    default: { auto g = opt::make_option<std::string>(); state(g.has_value(), true, "make_option without arguments"); if (!foreign()) value(int(g->size()), 0, "make_option without arguments"); }
                    }
                });
                Disarm d; int got = zv(x); SIM_CHECK(O_MOVE | O_OTHER, r != Out::ok || got == after, "operand-value", "the argument of make_option holds %d afterwards, expected %d", got, after);
            }},
            {{"cast_numbers", G_SPECIAL, 2}, [](ZipWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; opt::option<double> f; if (s.c.eng) f = s.c.val + 0.75;
                c.quiet([&] { opt::option<int> g = opt::option_cast<int>(f); state(g.has_value(), s.c.eng, "option_cast"); if (!foreign() && s.c.eng) value(*g, s.c.val, "option_cast to int"); opt::option<bool> b = opt::option_cast<bool>(s.c.o); state(b.has_value(), s.c.eng, "option_cast to bool"); if (!foreign() && s.c.eng) value(*b, s.c.val != 0, "option_cast to bool"); opt::option<unsigned char> u = opt::option_cast<unsigned char>(opt::option<int>(300 + c.in(3, 9))); state(u.has_value(), true, "option_cast to char"); if (!foreign()) value(*u, (300 + c.in(3, 9)) & 255, "option_cast to char"); });
            }},
        };
        return t;
    }
};
SIM_MINI("zip", TG_ZIP | TG_TRACKED, 5, ZipWorld);
} // namespace sim
