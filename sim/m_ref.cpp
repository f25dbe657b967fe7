// option<R&>, option<const R&>, option<R&&>: a rebindable pointer to somebody else's object.
#include "mini.hpp"
namespace sim {
using R = TF;
struct DerivedR : TF { int extra = 3; using TF::TF; };

// X is R&, const R& or R&&
template<class X>
struct RefWorld final : MiniWorld<RefWorld<X>> {
    using Me = RefWorld; using O = opt::option<X>; using U = std::remove_reference_t<X>; using Op = typename MiniWorld<RefWorld<X>>::Op;
    static constexpr bool rv = std::is_rvalue_reference_v<X>, cst = std::is_const_v<U>;
    static constexpr int K = 3, N = 4;
    struct T {
        alignas(DerivedR) u8 raw[N][sizeof(DerivedR)]; int val[N];
        O o[K]; int m[K] = {-1, -1, -1};
        DerivedR& obj(int i) { return *std::launder(reinterpret_cast<DerivedR*>(raw[i])); }
        T() { for (int i = 0; i < N; ++i) { ::new (raw[i]) DerivedR(i); val[i] = i; } }
        ~T() { for (int i = 0; i < N; ++i) obj(i).~DerivedR(); }
    };
    T* ts[3] = {};
    ~RefWorld() override { for (T* t : ts) delete t; }
    void init(int t, const Plan& p) { ts[t] = new T; for (int k = 0; k < K; ++k) { u32 r = u32(mix(p.cfg[0], u64(t * 8 + k)) >> 9) % (N + 1); if (r < N) set(*ts[t], k, int(r)); } }
    u64 state_key(int t) const { u64 r = 0; for (int k = 0; k < K; ++k) r = r * 8 + u64(ts[t]->m[k] + 1); return r; }
    static void set(T& s, int k, int i) { if constexpr (rv) s.o[k] = static_cast<R&&>(s.obj(i)); else s.o[k] = static_cast<X>(s.obj(i)); s.m[k] = i; }
    static X bind(T& s, int i) { return static_cast<X>(s.obj(i)); }
    template<class Y> static auto do_swap(Y& a, Y& b, int) -> decltype(opt::swap(a, b)) { opt::swap(a, b); }
    template<class Y> static void do_swap(Y& a, Y& b, long) { a.swap(b); }
    static const void* at(const T& s, int i) { return i < 0 ? nullptr : static_cast<const void*>(s.raw[i]); }
    template<class Y> static const void* where(const Y& y) { return static_cast<const void*>(std::addressof(y)); }
    void check(int t) {
        T& s = *ts[t];
        for (int k = 0; k < K; ++k) {
            const O& o = s.o[k];
            SIM_CHECK(O_STATE, o.has_value() == (s.m[k] >= 0), "ref-state", "reference %d is %s, expected %s", k, o.has_value() ? "bound" : "empty", s.m[k] >= 0 ? "bound" : "empty");
            SIM_CHECK(O_VALUE, o.ptr_or_null() == at(s, s.m[k]), "ref-target", "reference %d refers to the wrong object", k);
            log_event(u64(s.m[k] + 2));
        }
        for (int i = 0; i < N; ++i) { int v = s.obj(i).look("a read"); SIM_CHECK(O_OTHER, v == s.val[i], "referent-changed", "the object %d that is only referred to holds %d, expected %d", i, v, s.val[i]); }
        SIM_CHECK(O_LIFE, led_in_range(s.raw, sizeof s.raw) == N, "referent-destroyed", "an object that is only referred to was destroyed");
    }
    static const std::vector<Op>& table() {
        static const std::vector<Op> t = [] {
            std::vector<Op> v;
            auto add = [&](const char* n, u32 g, u32 w, void (*fn)(Me&, const Call&)) { v.push_back(Op{OpInfo{n, g, w}, fn}); };
            add("ctor", G_CTOR, 3, [](Me& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K), i = c.in(1, N), j = c.in(2, K); int kind = c.in(3, 7); int want = -1;
                c.quiet([&] {
                    O* p = &s.o[k];
                    O src = s.o[j]; const O& csrc = src; int mj = s.m[j];
                    p->~O();
                    switch (kind) {
                    case 0: ::new (p) O(); break;
                    case 1: ::new (p) O(opt::none); break;
                    case 2: ::new (p) O(bind(s, i)); want = i; break;
                    case 3: ::new (p) O(csrc); want = mj; break;
                    case 4: ::new (p) O(std::move(src)); want = mj; c.eq(src.has_value() == (mj >= 0) && src.ptr_or_null() == at(s, mj), "moving an option of a reference changed the source"); break;
                    case 5: ::new (p) O(std::in_place, bind(s, i)); want = i; break;
                    default: if constexpr (!rv && !cst) { ::new (p) O(opt::from_nullable(j ? static_cast<R*>(&s.obj(i)) : nullptr)); want = j ? i : -1; } else { ::new (p) O(); } break;
                    }
                });
                s.m[k] = want;
            });
            add("assign", G_ASSIGN, 6, [](Me& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K), i = c.in(1, N), j = c.in(2, K); int kind = c.in(3, 6); O& o = s.o[k]; const int mj = s.m[j];
                c.quiet([&] {
                    O* r = &o;
                    switch (kind) {
                    case 0: r = &(o = bind(s, i)); s.m[k] = i; break;
                    case 1: r = &(o = std::as_const(s.o[j])); s.m[k] = mj; break;
                    case 2: { O src = s.o[j]; r = &(o = std::move(src)); s.m[k] = mj; c.eq(src.ptr_or_null() == at(s, mj), "move assigning an option of a reference changed the source"); break; }
                    case 3: r = &(o = opt::none); s.m[k] = -1; break;
                    case 4: { opt::option<DerivedR&> d; if (i) d = s.obj(i); if constexpr (!rv) { r = &(c.a(4) % 2 ? o = d : o = std::as_const(d)); s.m[k] = i ? i : -1; } break; }
                    default: if constexpr (cst) { opt::option<R&> d; if (i) d = s.obj(i); r = &(c.a(4) % 3 == 0 ? o = d : c.a(4) % 3 == 1 ? o = std::as_const(d) : o = std::move(d)); s.m[k] = i ? i : -1; } break;
                    }
                    c.eq(r == &o, "operator= did not return *this");
                });
            });
            add("reset", G_RESET, 2, [](Me& w, const Call& c) { T& s = *w.ts[c.t]; int k = c.in(0, K); c.quiet([&] { s.o[k].reset(); }); s.m[k] = -1; });
            add("emplace", G_EMPLACE, 3, [](Me& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K), i = c.in(1, N); const void* p = nullptr; bool tr = c.a(3) % 2; int want = tr && s.m[k] >= 0 ? s.m[k] : i;
                c.quiet([&] { p = tr ? where(s.o[k].try_emplace(bind(s, i))) : where(s.o[k].emplace(bind(s, i))); });
                s.m[k] = want; c.eq(p == at(s, want), "emplace returned the wrong reference");
            });
            add("take", G_TAKE, 2, [](Me& w, const Call& c) { T& s = *w.ts[c.t]; int k = c.in(0, K); c.quiet([&] { O g = s.o[k].take(); c.eq(g.ptr_or_null() == at(s, s.m[k]), "take returned the wrong reference"); }); s.m[k] = -1; });
            add("swap", G_SWAP, 2, [](Me& w, const Call& c) { T& s = *w.ts[c.t]; int k = c.in(0, K), j = c.in(1, K); c.quiet([&] { using std::swap; if (c.in(3, 3) == 0) swap(s.o[k], s.o[j]); else if (c.in(3, 3) == 1) do_swap(s.o[k], s.o[j], 0); else s.o[k].swap(s.o[j]); }); std::swap(s.m[k], s.m[j]); });
            add("access", G_ACCESS, 5, [](Me& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K), q = c.in(1, 4), kind = c.in(3, 7); const bool e = s.m[k] >= 0; const void* p = nullptr; O& o = s.o[k];
                if (kind >= 5) {
                    Out r = guarded([&] { if (kind == 5) p = where(q & 1 ? o.value() : std::as_const(o).value()); else p = where(q & 1 ? o.value_or_throw() : std::as_const(o).value_or_throw()); });
                    SIM_CHECK(O_EXC | O_RESULT, (r == Out::ok) == e && r != Out::injected, "bad-access", "value() on %s reference", e ? "a bound" : "an empty");
                    if (e) c.eq(p == at(s, s.m[k]), "value() is not the referred object");
                    return;
                }
                if (!e) return;
                c.quiet([&] {
                    auto one = [&](auto&& x) {
                        using S = decltype(x);
                        using Want = std::conditional_t<rv && !std::is_lvalue_reference_v<S>, U&&, U&>;
                        auto chk = [&](auto&& y) { p = where(y); };
                        switch (kind) {
                        case 0: static_assert(std::is_same_v<decltype(static_cast<S>(x).get()), Want>); chk(static_cast<S>(x).get()); break;
                        case 1: static_assert(std::is_same_v<decltype(*static_cast<S>(x)), Want>); chk(*static_cast<S>(x)); break;
                        case 2: p = x.operator->(); break;
                        case 3: chk(static_cast<S>(x).get_unchecked()); break;
                        default: { int n = 0; for (auto& y : x) { p = where(y); if (++n > 2) break; } c.eq(n == 1, "iteration over a bound reference does not visit one element"); } }
                    };
                    switch (q) { case 0: one(o); break; case 1: one(std::as_const(o)); break; case 2: one(std::move(o)); break; default: one(static_cast<const O&&>(o)); }
                });
                c.eq(p == at(s, s.m[k]), "an accessor does not give the referred object");
            });
            add("observe", G_ACCESS, 2, [](Me& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K); const O& o = s.o[k]; bool e = s.m[k] >= 0;
                c.quiet([&] { c.eq(bool(o) == e && o.has_value() == e && (o == opt::none) == !e && (opt::none != o) == e && (o.begin() == o.end()) == !e, "the observers of a reference disagree"); });
            });
            if constexpr (!rv && !cst) add("write_through", G_ACCESS, 2, [](Me& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K); if (s.m[k] < 0) return; int nv = c.in(2, 6); const R x(nv);
                Out r = c.run([&] { if (c.a(3) % 2) *s.o[k] = x; else std::as_const(s.o[k]).get() = x; });
                s.val[s.m[k]] = r == Out::ok ? nv : s.obj(s.m[k]).look("a read");
            });
            if constexpr (!rv) add("value_or", G_ACCESS, 2, [](Me& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K), i = c.in(1, N); const void* p = nullptr;
                c.quiet([&] { p = c.a(3) % 2 ? where(s.o[k].value_or(bind(s, i))) : where(std::as_const(s.o[k]).value_or(bind(s, i))); });
                c.eq(p == at(s, s.m[k] >= 0 ? s.m[k] : i), "value_or of a reference gives the wrong object");
            });
            if constexpr (!rv) add("callbacks", G_CALLBACK, 6, [](Me& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K), kind = c.in(3, 8), i = c.in(1, N); bool yes = c.a(2) % 2, e = s.m[k] >= 0; int calls = 0, dcalls = 0; const void* p = nullptr; O& o = s.o[k];
                auto see = [&](auto& y) { ++calls; p = where(y); fpoint(PT_CALL); };
                Out r = c.run([&] {
                    switch (kind) {
                    case 0: { auto g = o.map([&](U& y) -> U& { see(y); return y; }); static_assert(std::is_same_v<decltype(g), opt::option<U&>>); c.eq(g.ptr_or_null() == at(s, s.m[k]), "map of a reference to a reference"); break; }
                    case 1: { auto g = std::as_const(o).and_then([&](U& y) { see(y); return yes ? O(y) : O(); }); c.eq(g.ptr_or_null() == (yes ? at(s, s.m[k]) : nullptr), "and_then of a reference"); break; }
                    case 2: { O g = o.filter([&](U& y) { see(y); return yes; }); c.eq(g.ptr_or_null() == (yes ? at(s, s.m[k]) : nullptr), "filter of a reference"); break; }
                    case 3: { O& g = o.inspect([&](U& y) { see(y); }); c.eq(&g == &o, "inspect of a reference"); break; }
                    case 4: c.eq(o.has_value_and([&](U& y) { see(y); return yes; }) == (e && yes), "has_value_and of a reference"); break;
                    case 5: { O g = std::as_const(o).or_else([&] { ++dcalls; fpoint(PT_CALL); return O(bind(s, i)); }); c.eq(g.ptr_or_null() == at(s, e ? s.m[k] : i), "or_else of a reference"); break; }
                    case 6: { int g = o.map_or(-5, [&](U& y) { see(y); return 6; }); c.eq(g == (e ? 6 : -5), "map_or of a reference"); break; }
                    default: { int g = o.map_or_else([&] { ++dcalls; return -6; }, [&](U& y) { see(y); return 7; }); c.eq(g == (e ? 7 : -6), "map_or_else of a reference"); } }
                });
                (void)r;
                SIM_CHECK(O_CALLBACK, calls == int(e && kind != 5) && dcalls == int(!e && (kind == 5 || kind == 7)), "callback-count", "callbacks were called %d+%d times", calls, dcalls);
                if (calls) c.eq(p == at(s, s.m[k]), "the callback did not get the referred object", O_CALLBACK);
            });
            if constexpr (!rv) add("take_if", G_TAKE, 2, [](Me& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K); bool yes = c.a(2) % 2; const bool e = s.m[k] >= 0; int calls = 0;
                Out r = c.run([&] { O g = s.o[k].take_if([&](U& y) { ++calls; c.eq(where(y) == at(s, s.m[k]), "take_if passes the referred object"); fpoint(PT_CALL); return yes; }); c.eq(g.ptr_or_null() == (yes ? at(s, s.m[k]) : nullptr), "take_if of a reference"); });
                c.eq(calls == int(e), "take_if called its function the wrong number of times", O_CALLBACK);
                if (r == Out::ok && yes) s.m[k] = -1;
            });
            add("compare", G_CMP, 3, [](Me& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K), j = c.in(1, K), op = c.in(3, 4); const O& a = s.o[k]; const O& b = s.o[j]; bool g = false;
                Out r = c.run([&] { switch (op) { case 0: g = a == b; break; case 1: g = a != b; break; case 2: g = a < b; break; default: g = a >= b; } });
                if (r != Out::ok) return;
                int x = s.m[k] < 0 ? -1 : s.val[s.m[k]], y = s.m[j] < 0 ? -1 : s.val[s.m[j]];
                c.eq(g == (op == 0 ? x == y : op == 1 ? x != y : op == 2 ? x < y : x >= y), "a comparison of references is not the comparison of the referred values");
            });
            // ------------------------------------------------ logical operators: the binding of the operand selected
            add("logic", G_LOGIC, 6, [](Me& w, const Call& c) {
                T& s = *w.ts[c.t]; const int k = c.in(0, K), j = c.in(1, K), i = c.in(2, N), kind = c.in(3, 12); O& a = s.o[k]; O& b = s.o[j]; const int x = s.m[k], y = s.m[j]; const bool e = x >= 0, f = y >= 0;
                c.quiet([&] {
                    auto is = [&](const O& g, int want) { c.eq(g.has_value() == (want >= 0) && g.ptr_or_null() == at(s, want), "a logical operator gives the wrong reference"); };
                    const int o = e ? x : y, n = e ? y : -1, xo = e && !f ? x : !e && f ? y : -1;
                    switch (kind) {
                    case 0: is(a | b, o); break;
                    case 1: is(std::as_const(a) | std::move(b), o); break;
                    case 2: is(std::move(a) | std::as_const(b), o); break;
                    case 3: { O l = a, r = b; is(std::move(l) | std::move(r), o); break; }
                    case 4: is(a & b, n); break;
                    case 5: is(std::as_const(a) & std::move(b), n); break;
                    case 6: is(a ^ b, xo); break;
                    case 7: { O l = a, r = b; is(std::move(l) ^ std::move(r), xo); break; }
                    case 8: is(c.a(4) % 2 ? std::as_const(a) ^ std::move(b) : std::move(a) ^ std::as_const(b), xo); break;
                    case 9: { O& g = (a |= std::as_const(b)); c.eq(&g == &a, "what |= returns"); s.m[k] = o; break; }
                    case 10: { O& g = (a |= bind(s, i)); c.eq(&g == &a, "what |= returns"); if (!e) s.m[k] = i; break; }
                    default: { opt::option<int> q(7); auto g = a & q; c.eq(g.has_value() == e && (!e || *g == 7), "a reference & a value"); opt::option<int> r = opt::none; is(r & a, -1); is(q & b, y); if constexpr (!rv) c.eq(where(a | bind(s, i)) == at(s, e ? x : i), "| with a reference as the default"); } }
                });
            });
            add("compare_all", G_CMP, 4, [](Me& w, const Call& c) {
                T& s = *w.ts[c.t]; const int k = c.in(0, K), j = c.in(1, K), i = c.in(2, N), kind = c.in(3, 4); const O& a = s.o[k]; const O& b = s.o[j];
                const int x = s.m[k] < 0 ? -1 : s.val[s.m[k]], y = s.m[j] < 0 ? -1 : s.val[s.m[j]], z = s.val[i];
                c.run([&] {
                    auto rel = [&](const auto& l, const auto& r, int p, int q) { c.eq((l == r) == (p == q) && (l != r) == (p != q) && (l < r) == (p < q) && (l <= r) == (p <= q) && (l > r) == (p > q) && (l >= r) == (p >= q), "a comparison of references is not that of the referred values"); };
                    switch (kind) {
                    case 0: rel(a, b, x, y); break;
                    case 1: rel(a, std::as_const(s.obj(i)), x, z); break;
                    case 2: rel(std::as_const(s.obj(i)), a, z, x); break;
                    default: { opt::option<TF> v; { Disarm d; if (i % 2) v.emplace(s.val[i]); } const int q = i % 2 ? z : -1; rel(a, v, x, q); rel(v, b, q, y); } }
                });
            });
            add("hash", G_HASH, 2, [](Me& w, const Call& c) {
                T& s = *w.ts[c.t]; const int k = c.in(0, K), j = c.in(1, K);
                if constexpr (!rv) c.quiet([&] { const std::size_t h = std::hash<O>{}(s.o[k]), h2 = std::hash<O>{}(s.o[j]); c.eq((s.m[k] != s.m[j]) || h == h2, "the hash of two references to one object"); if (s.m[k] >= 0) c.eq(h == std::hash<U*>{}(std::addressof(*s.o[k])), "the hash of a reference is not that of the address"); });
            });
            // ------------------------------------------------ from and to other options
            add("convert", G_CONV, 6, [](Me& w, const Call& c) {
                T& s = *w.ts[c.t]; const int k = c.in(0, K), kind = c.in(3, 6); O& o = s.o[k]; const int m = s.m[k]; const bool e = m >= 0; bool moved = false;
                Out r = c.run([&] {
                    auto see = [&](const opt::option<TF>& g) { Disarm d; c.eq(g.has_value() == e && (!e || g->look("a read") == s.val[m]), "an option of a value made from an option of a reference"); };
                    switch (kind) {
                    case 0: { opt::option<TF> g(std::as_const(o)); see(g); break; }
                    case 1: { opt::option<TF> g(std::move(o)); moved = rv; see(g); break; } // only an rvalue reference lets go of its object
                    case 2: { opt::option<TF> g; g = std::as_const(o); see(g); break; }
                    case 3: { opt::option<TF> g; g = std::move(o); moved = rv; see(g); break; }
                    case 4: if constexpr (!rv) see(opt::option_cast<TF>(std::as_const(o))); break;
                    default: if constexpr (!rv) see(opt::option_cast<TF>(std::move(o))); }
                });
                if (foreign()) return;
                if (moved && e && r == Out::ok) { int v = s.obj(m).look("a read"); SIM_CHECK(O_MOVE | O_OTHER, v == MOVED, "not-moved", "the object of an rvalue reference was not moved from"); Disarm d; s.obj(m) = DerivedR(s.val[m]); }
            });
            if constexpr (!rv) add("bind_wrapper", G_CTOR | G_ASSIGN, 3, [](Me& w, const Call& c) { // std::reference_wrapper is a reference, too
                T& s = *w.ts[c.t]; const int k = c.in(0, K), i = c.in(1, N), kind = c.in(3, 4); O& o = s.o[k]; U& target = s.obj(i); std::reference_wrapper<U> rw(target);
                c.quiet([&] {
                    switch (kind) {
                    case 0: o = rw; s.m[k] = i; break;
                    case 1: { O x(rw); c.eq(x.ptr_or_null() == at(s, i), "an option of a reference made from a reference_wrapper"); break; }
                    case 2: { opt::option<std::reference_wrapper<U>> q; if (c.a(4) % 2) q = rw; o = q; s.m[k] = c.a(4) % 2 ? i : -1; break; }
                    default: { opt::option<std::reference_wrapper<U>> q(rw); O x(q); c.eq(x.ptr_or_null() == at(s, i), "an option of a reference made from an option of a reference_wrapper"); } }
                });
            });
            add("convert_ref", G_CTOR | G_CONV, 4, [](Me& w, const Call& c) { // from options of references to what can be bound: never explicit, empty from empty
                T& s = *w.ts[c.t]; const int k = c.in(0, K), i = c.in(1, N), kind = c.in(3, 4), q = c.in(4, 4); const bool e = c.a(2) % 2; O& o = s.o[k];
                c.quiet([&] {
                    auto is = [&](O g) { c.eq(g.has_value() == e && g.ptr_or_null() == at(s, e ? i : -1), "an option of a reference made from another option of a reference"); };
                    auto from = [&](auto& d, bool assign) {
                        using D = std::remove_reference_t<decltype(d)>;
                        static_assert(rv || (std::is_convertible_v<D&, O> && std::is_convertible_v<const D&, O>)); static_assert(std::is_convertible_v<D&&, O>);
                        if (assign) { O* r; if constexpr (rv) r = &(o = std::move(d)); else r = q == 0 ? &(o = d) : q == 1 ? &(o = std::as_const(d)) : &(o = std::move(d)); c.eq(r == &o, "operator= did not return *this"); s.m[k] = e ? i : -1; }
                        else { if constexpr (rv) is(std::move(d)); else switch (q) { case 0: is(d); break; case 1: is(std::as_const(d)); break; case 2: is(std::move(d)); break; default: is(static_cast<const D&&>(d)); } }
                        c.eq(d.has_value() == e && static_cast<const void*>(d.ptr_or_null()) == at(s, e ? i : -1), "the source of a conversion between options of references changed");
                    };
                    if constexpr (rv) { opt::option<DerivedR&&> d; if (e) d = static_cast<DerivedR&&>(s.obj(i)); from(d, kind % 2); }
                    else if (cst && kind >= 2) { if constexpr (cst) { if (kind == 2) { opt::option<R&> d; if (e) d = s.obj(i); from(d, c.a(1) % 2); } else { opt::option<const DerivedR&> d; if (e) d = s.obj(i); from(d, c.a(1) % 2); } } }
                    else if (kind == 3) { opt::option<std::reference_wrapper<U>> d; if (e) d = std::ref(static_cast<U&>(s.obj(i))); O x(d), y(std::as_const(d)), z(std::move(d)); is(x); is(y); is(z); }
                    else { opt::option<DerivedR&> d; if (e) d = s.obj(i); from(d, kind % 2); }
                });
            });
            add("iterate", G_ITER | G_ACCESS, 3, [](Me& w, const Call& c) {
                T& s = *w.ts[c.t]; const int k = c.in(0, K); O& o = s.o[k]; const int m = s.m[k];
                if constexpr (!rv) c.quiet([&] {
                    auto it = o.begin(); auto ci = std::as_const(o).begin();
                    c.eq((o.end() - it) == (m >= 0) && (std::as_const(o).end() - ci) == (m >= 0), "the length of the range of a reference");
                    if (m < 0) { c.eq(it == o.end() && ci == std::as_const(o).end(), "the range of an empty reference"); return; }
                    c.eq(where(*it) == at(s, m) && where(*ci) == at(s, m) && where(it[0]) == at(s, m) && static_cast<const void*>(it.operator->()) == at(s, m), "an iterator does not reach the referred object");
                    auto e = it; ++e; c.eq(e == o.end() && it < e && e > it && it != e, "an iterator past a reference"); --e; c.eq(e == it, "an iterator back at a reference"); e += 1; c.eq(e == o.end(), "+= 1"); e -= 1; c.eq(e == it && (it + 1) == o.end() && (o.end() - 1) == it, "-= 1");
                });
            });
            add("combine", G_SPECIAL | G_MISC, 4, [](Me& w, const Call& c) {
                T& s = *w.ts[c.t]; const int k = c.in(0, K), j = c.in(1, K), kind = c.in(3, 5); O& o = s.o[k]; const int m = s.m[k], y = s.m[j]; const bool e = m >= 0;
                if constexpr (!rv) c.quiet([&] {
                    switch (kind) {
                    case 0: { opt::option<int> n(3); auto g = opt::zip(o, n, s.o[j]); static_assert(std::is_same_v<decltype(g), opt::option<std::tuple<X, int, X>>>); c.eq(g.has_value() == (e && y >= 0) && (!g.has_value() || (where(std::get<0>(*g)) == at(s, m) && where(std::get<2>(*g)) == at(s, y))), "zip of references"); break; }
                    case 1: { auto g = opt::zip_with([&](U& a, U& b) { return where(a) == at(s, m) && where(b) == at(s, y) ? 1 : 0; }, o, std::as_const(s.o[j])); c.eq(g.has_value() == (e && y >= 0) && (!g.has_value() || *g == 1), "zip_with of references"); break; }
                    case 2: { opt::option<O> n; if (c.a(2) % 2) n.emplace(o); auto g = opt::flatten(std::as_const(n)); c.eq(g.has_value() == (e && c.a(2) % 2) && static_cast<const void*>(g.ptr_or_null()) == at(s, c.a(2) % 2 ? m : -1), "flatten of an option of a reference"); break; }
                    case 3: { auto g = opt::option_cast<const R&>(std::as_const(o)); static_assert(std::is_same_v<decltype(g), opt::option<const R&>>); c.eq(g.ptr_or_null() == at(s, m), "option_cast to a const reference"); break; }
                    default: { auto g = opt::from_nullable(e ? std::addressof(*o) : nullptr); c.eq(g.ptr_or_null() == at(s, m), "from_nullable of the address"); } }
                });
            });
            if constexpr (!rv) add("callbacks_rvalue", G_CALLBACK, 4, [](Me& w, const Call& c) { // an rvalue option of an lvalue reference still passes an lvalue
                T& s = *w.ts[c.t]; const int k = c.in(0, K), kind = c.in(3, 7), i = c.in(1, N), q = c.in(4, 2); const bool yes = c.a(2) % 2, e = s.m[k] >= 0; int calls = 0; const void* p = nullptr; O& o = s.o[k];
                auto see = [&](auto&& y) { static_assert(std::is_same_v<decltype(y), U&>); ++calls; p = where(y); fpoint(PT_CALL); return yes; };
                c.run([&] {
                    auto go = [&](auto&& x) { using S = decltype(x);
                        switch (kind) {
                        case 0: { auto g = static_cast<S>(x).map(see); c.eq(g.has_value() == e && (!e || *g == yes), "map of an rvalue option of a reference"); break; }
                        case 1: { auto g = static_cast<S>(x).and_then([&](auto&& y) { see(static_cast<decltype(y)>(y)); return opt::option<int>(4); }); c.eq(g.has_value() == e, "and_then of an rvalue option of a reference"); break; }
                        case 2: { O g = static_cast<S>(x).filter(see); c.eq(g.ptr_or_null() == (yes ? at(s, s.m[k]) : nullptr), "filter of an rvalue option of a reference"); break; }
                        case 3: static_cast<S>(x).inspect(see); break;
                        case 4: c.eq(static_cast<S>(x).has_value_and(see) == (e && yes), "has_value_and of an rvalue option of a reference"); break;
                        case 5: { O g = static_cast<S>(x).or_else([&] { return O(bind(s, i)); }); c.eq(g.ptr_or_null() == at(s, e ? s.m[k] : i), "or_else of an rvalue option of a reference"); calls = e; if (e) p = at(s, s.m[k]); break; }
                        default: c.eq(static_cast<S>(x).map_or(2, [&](auto&& y) { return int(see(static_cast<decltype(y)>(y))); }) == (e ? int(yes) : 2), "map_or of an rvalue option of a reference"); }
                    };
                    if (q) go(std::move(o)); else go(static_cast<const O&&>(o));
                });
                SIM_CHECK(O_CALLBACK, calls == int(e), "callback-count", "callbacks were called %d times", calls);
                if (calls) c.eq(p == at(s, s.m[k]), "the callback did not get the referred object", O_CALLBACK);
            });
            add("nested", G_SPECIAL, 3, [](Me& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(0, K), i = c.in(1, N);
                c.quiet([&] {
                    opt::option<O> n; opt::option<opt::option<O>> d;
                    c.eq(!n.has_value() && !d.has_value(), "a new nested reference is not empty");
                    if (c.a(3) % 2) { n.emplace(); c.eq(n.has_value() && !n->has_value(), "an option of an empty reference"); d.emplace(); c.eq(d.has_value() && !d->has_value(), "an option of an empty option of a reference"); }
                    else if (!rv) { n.emplace(s.o[k]); c.eq(n.has_value() && n->ptr_or_null() == at(s, s.m[k]), "an option of a reference"); d.emplace(n); c.eq(d.has_value() && d->has_value() && (**d).ptr_or_null() == at(s, s.m[k]), "an option of an option of a reference"); *n = bind(s, i); c.eq(n->ptr_or_null() == at(s, i), "rebinding inside"); }
                    n.reset(); c.eq(!n.has_value(), "reset of a nested reference"); d = opt::none; c.eq(!d.has_value(), "reset of a nested reference");
                });
            });
            return v;
        }();
        return t;
    }
};
SIM_MINI("ref", TG_REF, 4, RefWorld<R&>);
SIM_MINI("cref", TG_REF, 2, RefWorld<const R&>);
SIM_MINI("rref", TG_REF, 2, RefWorld<R&&>);
} // namespace sim
