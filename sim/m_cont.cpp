// opt::at, at_front, at_back, lookup and get: an option that refers into a container, a tuple-like or a variant.
// The containers change between the queries, lookups fail in the middle of find, variants become valueless.
#include "mini.hpp"
#include <deque>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
namespace sim {
// a sequence of the program: reports every access that is out of range
template<class T, class Size>
struct SimSeq {
    std::vector<std::unique_ptr<T>> v;
    using value_type = T;
    Size size() const { return Size(v.size()); }
    std::size_t in(std::size_t i) const { SIM_CHECK(O_RESULT | O_CRASH, i < v.size(), "out-of-range", "element %zu of %zu was accessed", i, v.size()); if (i >= v.size()) { static std::size_t z; z = 0; return z; } return i; }
    T& at0(std::size_t i) const { static std::unique_ptr<T> dummy; if (v.empty()) { in(0); Disarm d; if (!dummy) dummy.reset(new T(0)); return *dummy; } return *v[in(i)]; }
    T& operator[](std::size_t i) & { return at0(i); }
    const T& operator[](std::size_t i) const& { return at0(i); }
    T&& operator[](std::size_t i) && { return static_cast<T&&>(at0(i)); }
    const T&& operator[](std::size_t i) const&& { return static_cast<const T&&>(at0(i)); }
    T& front() & { return at0(0); }
    const T& front() const& { return at0(0); }
    T&& front() && { return static_cast<T&&>(at0(0)); }
    const T&& front() const&& { return static_cast<const T&&>(at0(0)); }
    T& back() & { return at0(v.size() - 1); }
    const T& back() const& { return at0(v.size() - 1); }
    T&& back() && { return static_cast<T&&>(at0(v.size() - 1)); }
    const T&& back() const&& { return static_cast<const T&&>(at0(v.size() - 1)); }
};
// a sequence that claims to hold more elements than there is memory; only a few of them have storage
template<class T, class Size>
struct HugeSeq {
    using value_type = T;
    Size n = 0; mutable std::array<T, 5> some{T(0), T(1), T(2), T(3), T(4)};
    Size size() const { return n; }
    T& at0(std::size_t i) const { SIM_CHECK(O_RESULT | O_CRASH, i < n, "out-of-range", "element %zu of %zu was accessed", i, std::size_t(n)); return some[i % 5]; }
    T& operator[](std::size_t i) & { return at0(i); }
    const T& operator[](std::size_t i) const& { return at0(i); }
    T&& operator[](std::size_t i) && { return static_cast<T&&>(at0(i)); }
    const T&& operator[](std::size_t i) const&& { return static_cast<const T&&>(at0(i)); }
    T& front() & { return at0(0); }
    const T& front() const& { return at0(0); }
    T&& front() && { return static_cast<T&&>(at0(0)); }
    const T&& front() const&& { return static_cast<const T&&>(at0(0)); }
    T& back() & { return at0(std::size_t(n) - 1); }
    const T& back() const& { return at0(std::size_t(n) - 1); }
    T&& back() && { return static_cast<T&&>(at0(std::size_t(n) - 1)); }
    const T&& back() const&& { return static_cast<const T&&>(at0(std::size_t(n) - 1)); }
};
struct SimKey { int k; bool rv = false; explicit SimKey(int x) : k(x) {} SimKey(const SimKey&) = default; SimKey(SimKey&& o) noexcept : k(o.k), rv(true) { o.k = -77; } };
// map-like and set-like containers of the program, whose find consumes rvalue keys and may throw
template<class T, bool Map>
struct SimAssoc {
    struct MapTypes { using mapped_type = T; };
    std::map<int, std::pair<int, std::unique_ptr<T>>> m; mutable int rvalue_keys = 0, lvalue_keys = 0, finds = 0;
    struct Pair { const int first; T& second; };
    template<class Ref> struct It {
        const std::pair<int, std::unique_ptr<T>>* p;
        Ref operator*() const { SIM_CHECK(O_RESULT | O_CRASH, p, "end-dereferenced", "the end of a container was dereferenced"); return *p->second; }
        friend bool operator==(It a, It b) { return a.p == b.p; }
        friend bool operator!=(It a, It b) { return a.p != b.p; }
    };
    template<class Ref> It<Ref> get(int k) const { fpoint(PT_FIND); auto i = m.find(k); return {i == m.end() ? nullptr : &i->second}; }
    It<T&> find(const SimKey& k) { ++finds; ++lvalue_keys; return get<T&>(k.k); }
    It<T&> find(SimKey&& k) { ++finds; ++rvalue_keys; SimKey eat(std::move(k)); return get<T&>(eat.k); }
    It<const T&> find(const SimKey& k) const { ++finds; ++lvalue_keys; return get<const T&>(k.k); }
    It<const T&> find(SimKey&& k) const { ++finds; ++rvalue_keys; SimKey eat(std::move(k)); return get<const T&>(eat.k); }
    It<T&> end() { return {nullptr}; }
    It<const T&> end() const { return {nullptr}; }
};
template<class T>
struct SimAssoc<T, true> { // "it->second"
    using mapped_type = T;
    template<class Ref> struct Node { int first; std::remove_reference_t<Ref>* p; };
    template<class U> struct Pair { int first; U second; };
    std::map<int, Pair<T>> m; mutable int rvalue_keys = 0, lvalue_keys = 0, finds = 0;
    template<class P> struct It {
        P* p;
        P* operator->() const { SIM_CHECK(O_RESULT | O_CRASH, p, "end-dereferenced", "the end of a container was dereferenced"); return p; }
        friend bool operator==(It a, It b) { return a.p == b.p; }
        friend bool operator!=(It a, It b) { return a.p != b.p; }
    };
    template<class P, class M> static It<P> get(M& m, int k) { fpoint(PT_FIND); auto i = m.find(k); return {i == m.end() ? nullptr : &i->second}; }
    It<Pair<T>> find(const SimKey& k) { ++finds; ++lvalue_keys; return get<Pair<T>>(m, k.k); }
    It<Pair<T>> find(SimKey&& k) { ++finds; ++rvalue_keys; SimKey eat(std::move(k)); return get<Pair<T>>(m, eat.k); }
    It<const Pair<T>> find(const SimKey& k) const { ++finds; ++lvalue_keys; return get<const Pair<T>>(m, k.k); }
    It<const Pair<T>> find(SimKey&& k) const { ++finds; ++rvalue_keys; SimKey eat(std::move(k)); return get<const Pair<T>>(m, eat.k); }
    It<Pair<T>> end() { return {nullptr}; }
    It<const Pair<T>> end() const { return {nullptr}; }
};
struct ThrowHash { std::size_t operator()(int x) const { fpoint(PT_HASH); return std::size_t(x) % 3; } };
struct ThrowLess { using is_transparent = void; template<class A, class B> bool operator()(const A& a, const B& b) const { fpoint(PT_CMP); return std::string_view(a) < std::string_view(b); } };
struct TfLess { using is_transparent = void; bool operator()(const TF& a, const TF& b) const { return a < b; } bool operator()(const TF& a, int b) const { fpoint(PT_CMP); return a.look("a lookup") < b; } bool operator()(int a, const TF& b) const { fpoint(PT_CMP); return a < b.look("a lookup"); } };
// different keys that are equivalent: only the container may decide which key is the one asked for
struct ModLess { bool operator()(int a, int b) const { fpoint(PT_CMP); return a % 9 < b % 9; } };
struct ModHash { std::size_t operator()(int a) const { fpoint(PT_HASH); return std::size_t(a % 3); } };
struct ModSame { bool operator()(int a, int b) const { fpoint(PT_CMP); return a % 9 == b % 9; } };
struct Thin { int a; TF b; Thin(int x, int y) : a(x), b(y) {} }; // an element with members

struct ContWorld final : MiniWorld<ContWorld> {
    using Var = std::variant<TF, int, Thin>;
    using VarI = std::variant<int, double, std::string, char>;
    struct T {
        std::vector<TF> vec; std::deque<TF> deq; std::list<TF> lst; SimSeq<TF, u8> tiny; SimSeq<TF, std::size_t> seq; HugeSeq<TF, std::size_t> huge; HugeSeq<TF, u32> huge32; std::vector<int> m; // all hold the same
        std::array<TF, 3> arr{TF(0), TF(1), TF(2)}; std::array<int, 0> arr0{}; std::string str;
        std::map<int, TF> map; std::unordered_map<int, TF, ThrowHash> um; std::map<std::string, TF, ThrowLess> sm; std::set<TF, TfLess> set; std::multimap<int, TF> mm; std::map<int, TF, ModLess> eqm; std::unordered_map<int, TF, ModHash, ModSame> equ; std::set<int, ModLess> eqs;
        SimAssoc<TF, true> am; SimAssoc<TF, false> as; std::map<int, int> km; // km: the model of all of them
        opt::option<std::tuple<TF, int, Thin>> tup; opt::option<std::pair<const TF, TF>> pr; opt::option<std::array<TF, 2>> ar2; opt::option<std::tuple<short, TF&>> tref; TF outside{5};
        int mt = -1, mp = -1, ma = -1, mtr = -1, out = 5;
        Var var{std::in_place_index<1>, 0}; VarI vi; int mv = 0; int mvi = 0; std::size_t ix = 1, ixi = 0;
    };
    T* ts[3] = {};
    ~ContWorld() override { for (T* t : ts) delete t; }
    void init(int t, const Plan& p) { ts[t] = new T; T& s = *ts[t]; for (u32 i = 0; i < p.cfg[0] % 4; ++i) push(s, int(i), 0); for (u32 i = 0; i < p.cfg[1] % 4; ++i) keyed(s, int(i * 2), int(i)); }
    u64 state_key(int t) const { const T& s = *ts[t]; return s.m.size() + 16 * s.km.size() + 256 * (s.ix + 1) + 4096u * (s.mt >= 0) + 8192u * (s.mp >= 0) + 16384u * (s.ma >= 0); }
    static void push(T& s, int v, int where) {
        Disarm d; auto at = std::size_t(where) % (s.m.size() + 1); if (s.m.size() >= 300) return;
        auto I = std::ptrdiff_t(at);
        s.m.insert(s.m.begin() + I, v); s.vec.insert(s.vec.begin() + I, TF(v)); s.deq.insert(s.deq.begin() + I, TF(v)); s.lst.insert(std::next(s.lst.begin(), I), TF(v)); s.tiny.v.insert(s.tiny.v.begin() + I, std::make_unique<TF>(v)); s.seq.v.insert(s.seq.v.begin() + I, std::make_unique<TF>(v));
        s.str.insert(s.str.begin() + I, char('a' + v % 26));
    }
    static void pop(T& s, int where) {
        Disarm d; if (s.m.empty()) return; auto I = std::ptrdiff_t(std::size_t(where) % s.m.size());
        s.m.erase(s.m.begin() + I); s.vec.erase(s.vec.begin() + I); s.deq.erase(s.deq.begin() + I); s.lst.erase(std::next(s.lst.begin(), I)); s.tiny.v.erase(s.tiny.v.begin() + I); s.seq.v.erase(s.seq.v.begin() + I); s.str.erase(s.str.begin() + I);
    }
    static void keyed(T& s, int k, int v) {
        Disarm d; unkeyed(s, k); s.km[k] = v;
        s.map.emplace(k, v); s.um.emplace(k, v); s.sm.emplace(text(k % 6) + std::to_string(k), v); s.set.emplace(k); s.mm.emplace(k, v); s.eqm.emplace(k, v); s.equ.emplace(k, v); s.eqs.insert(k); s.am.m.emplace(k, SimAssoc<TF, true>::Pair<TF>{k, TF(v)}); s.as.m[k] = {k, std::make_unique<TF>(v)};
    }
    static void unkeyed(T& s, int k) {
        Disarm d; s.km.erase(k); s.map.erase(k); s.um.erase(k); s.sm.erase(text(k % 6) + std::to_string(k)); if (auto i = s.set.find(k); i != s.set.end()) s.set.erase(i); s.mm.erase(k); s.eqm.erase(k); s.equ.erase(k); s.eqs.erase(k); s.am.m.erase(k); s.as.m.erase(k);
    }
    static int rd(const TF& x) { return x.look("a read"); }
    static int rd(const Thin& x) { return rd(x.b); }
    static int rd(int x) { return x; }
    void check(int t) {
        T& s = *ts[t];
        SIM_CHECK(O_OTHER, s.vec.size() == s.m.size() && s.map.size() == s.km.size(), "container-size", "a query changed the size of a container");
        auto li = s.lst.begin(); for (std::size_t i = 0; i < s.m.size(); ++i, ++li) SIM_CHECK(O_OTHER, rd(s.vec[i]) == s.m[i] && rd(s.deq[i]) == s.m[i] && rd(*s.seq.v[i]) == s.m[i] && rd(*s.tiny.v[i]) == s.m[i] && rd(*li) == s.m[i] && s.str[i] == char('a' + s.m[i] % 26), "element-changed", "element %zu of a queried container changed", i);
        for (int i = 0; i < 3; ++i) SIM_CHECK(O_OTHER, rd(s.arr[std::size_t(i)]) == i, "element-changed", "an element of a queried array changed");
        for (auto [k, v] : s.km) SIM_CHECK(O_OTHER, rd(s.map.find(k)->second) == v && rd(s.am.m.find(k)->second.second) == v && rd(*s.as.m.find(k)->second.second) == v && rd(s.mm.find(k)->second) == v && s.eqs.size() == s.km.size() && s.equ.size() == s.km.size() && s.eqm.size() == s.km.size(), "element-changed", "the element of key %d changed", k);
        SIM_CHECK(O_STATE | O_OTHER, s.tup.has_value() == (s.mt >= 0) && s.pr.has_value() == (s.mp >= 0) && s.ar2.has_value() == (s.ma >= 0) && s.tref.has_value() == (s.mtr >= 0), "tuple-state", "an option of a tuple changed its state");
        if (s.mt >= 0) SIM_CHECK(O_OTHER, rd(std::get<0>(*s.tup)) == s.mt && std::get<1>(*s.tup) == s.mt + 1 && rd(std::get<2>(*s.tup)) == s.mt + 2 && std::get<2>(*s.tup).a == s.mt, "tuple-changed", "a queried tuple changed");
        if (s.mp >= 0) SIM_CHECK(O_OTHER, rd(s.pr->first) == s.mp && rd(s.pr->second) == s.mp + 1, "tuple-changed", "a queried pair changed");
        if (s.ma >= 0) SIM_CHECK(O_OTHER, rd((*s.ar2)[0]) == s.ma && rd((*s.ar2)[1]) == s.ma + 1, "tuple-changed", "a queried array changed");
        SIM_CHECK(O_OTHER, rd(s.outside) == s.out, "referent-changed", "an object that is only referred to changed");
        SIM_CHECK(O_OTHER, s.var.index() == s.ix && s.vi.index() == s.ixi, "variant-changed", "a query changed the alternative of a variant");
        if (s.ix != std::variant_npos) SIM_CHECK(O_OTHER, std::visit([](auto& x) { return rd(x); }, s.var) == s.mv, "variant-changed", "a query changed the value of a variant");
    }
    // r must be an option of a reference to exactly that object (null: empty)
    template<class Want, class R> static void same_ref(const R& r, const void* want, const char* what) {
        static_assert(std::is_same_v<R, opt::option<Want>>);
        Disarm d;
        log_event(want ? 5 : 6);
        SIM_CHECK(O_RESULT, r.has_value() == (want != nullptr), "query-state", "%s is %s, expected %s", what, r.has_value() ? "engaged" : "empty", want ? "engaged" : "empty");
        if (foreign() || !want) return;
        SIM_CHECK(O_RESULT, static_cast<const void*>(r.ptr_or_null()) == want, "query-address", "%s refers to another object", what);
    }
    static std::size_t index(const Call& c, std::size_t n) {
        static const std::size_t huge[] = {~std::size_t(0), std::size_t(1) << 63, (std::size_t(1) << 32), 256, (std::size_t(1) << 31), 65536, ~std::size_t(0) - 1};
        int k = c.in(2, 16);
        if (k < 7) return huge[k] + (k ? std::size_t(c.a(3) % 3) : 0);
        if (k == 7) return n; if (k == 8 && n) return n - 1; if (k == 9) return n + 1; if (k == 10) return 0;
        return n ? std::size_t(c.a(3)) % n : 0;
    }
    // f(container as lvalue / const / rvalue / const rvalue)
    template<class C, class E> static void queries(const Call& c, C& x, std::size_t n, E addr) {
        const std::size_t i = index(c, n); const void* w = i < n ? addr(i) : nullptr; const void* f = n ? addr(0) : nullptr; const void* b = n ? addr(n - 1) : nullptr;
        using X = typename C::value_type;
        c.quiet([&] {
            switch (c.in(4, 12)) {
            case 0: same_ref<X&>(opt::at(x, i), w, "at"); break;
            case 1: same_ref<const X&>(opt::at(std::as_const(x), i), w, "at of const"); break;
            case 2: same_ref<X&&>(opt::at(std::move(x), i), w, "at of rvalue"); break;
            case 3: same_ref<const X&&>(opt::at(std::move(std::as_const(x)), i), w, "at of const rvalue"); break;
            case 4: same_ref<X&>(opt::at_front(x), f, "at_front"); break;
            case 5: same_ref<const X&>(opt::at_front(std::as_const(x)), f, "at_front of const"); break;
            case 6: same_ref<X&&>(opt::at_front(std::move(x)), f, "at_front of rvalue"); break;
            case 7: same_ref<const X&&>(opt::at_front(std::move(std::as_const(x))), f, "at_front of const rvalue"); break;
            case 8: same_ref<X&>(opt::at_back(x), b, "at_back"); break;
            case 9: same_ref<const X&>(opt::at_back(std::as_const(x)), b, "at_back of const"); break;
            case 10: same_ref<X&&>(opt::at_back(std::move(x)), b, "at_back of rvalue"); break;
            default: same_ref<const X&&>(opt::at_back(std::move(std::as_const(x))), b, "at_back of const rvalue"); break;
            }
        });
    }
    template<class X> static const void* ad(const X& x) { return static_cast<const void*>(std::addressof(x)); }
    template<class Ref, class F> static void looking(const Call& c, F&& f, const void* want, const char* what) {
        Out r = guarded([&] { auto g = f(); same_ref<Ref>(g, want, what); });
        SIM_CHECK(O_EXC, r != Out::bad_access && r != Out::alien, "bad-access", "%s throws", what); (void)c;
    }
    template<class... W, class F> static void four(const Call& c, F&& f) { c.quiet(f); }
    template<std::size_t I, class X> static constexpr bool lv = std::is_lvalue_reference_v<X>;
    template<class Ty, std::size_t I, class O> static void gets(const Call& c, O& o, const void* w, const char* what) {
        using Co = const Ty;
        c.quiet([&] {
            switch (c.in(4, 4)) {
            case 0: same_ref<Ty&>(opt::get<I>(o), w, what); break;
            case 1: same_ref<Co&>(opt::get<I>(std::as_const(o)), w, what); break;
            case 2: same_ref<Ty&&>(opt::get<I>(std::move(o)), w, what); break;
            default: same_ref<Co&&>(opt::get<I>(std::move(std::as_const(o))), w, what); break;
            }
        });
    }
    template<class Ty, class O> static void gett(const Call& c, O& o, const void* w, const char* what) {
        using Co = const Ty;
        c.quiet([&] {
            switch (c.in(4, 4)) {
            case 0: same_ref<Ty&>(opt::get<Ty>(o), w, what); break;
            case 1: same_ref<Co&>(opt::get<Ty>(std::as_const(o)), w, what); break;
            case 2: same_ref<Ty&&>(opt::get<Ty>(std::move(o)), w, what); break;
            default: same_ref<Co&&>(opt::get<Ty>(std::move(std::as_const(o))), w, what); break;
            }
        });
    }
    static const std::vector<Op>& table() {
        static const std::vector<Op> t = {
            {{"push", G_ASSIGN, 5}, [](ContWorld& w, const Call& c) { push(*w.ts[c.t], c.in(2, 6), c.a(3)); }},
            {{"pop", G_ASSIGN, 3}, [](ContWorld& w, const Call& c) { pop(*w.ts[c.t], c.a(3)); }},
            {{"grow", G_ASSIGN, 1}, [](ContWorld& w, const Call& c) { T& s = *w.ts[c.t]; if (s.m.size() < 30) for (int i = 0; i < 20; ++i) push(s, i % 6, 0); }},
            {{"clear", G_ASSIGN, 1}, [](ContWorld& w, const Call& c) { T& s = *w.ts[c.t]; while (!s.m.empty()) pop(s, 0); }},
            {{"at_vector", G_SPECIAL, 5}, [](ContWorld& w, const Call& c) { T& s = *w.ts[c.t]; queries(c, s.vec, s.m.size(), [&](std::size_t i) { return ad(s.vec[i]); }); }},
            {{"at_deque", G_SPECIAL, 3}, [](ContWorld& w, const Call& c) { T& s = *w.ts[c.t]; queries(c, s.deq, s.m.size(), [&](std::size_t i) { return ad(s.deq[i]); }); }},
            {{"at_sequence", G_SPECIAL, 5}, [](ContWorld& w, const Call& c) { T& s = *w.ts[c.t]; queries(c, s.seq, s.m.size(), [&](std::size_t i) { return ad(*s.seq.v[i]); }); }},
            {{"at_tiny_sequence", G_SPECIAL, 3}, [](ContWorld& w, const Call& c) { T& s = *w.ts[c.t]; if (s.m.size() < 256) queries(c, s.tiny, s.m.size(), [&](std::size_t i) { return ad(*s.tiny.v[i]); }); }},
            {{"at_huge_sequence", G_SPECIAL, 4}, [](ContWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; static const std::size_t base[] = {0, 255, 65535, 0x7FFFFFFF, 0xFFFFFFFF, std::size_t(1) << 33, std::size_t(-1) >> 1, ~std::size_t(0) - 4};
                const std::size_t n = base[c.in(1, 8)] + std::size_t(c.a(1) / 8 % 5);
                if (c.a(1) / 40 % 7 == 3) { s.huge32.n = u32(n); queries(c, s.huge32, u32(n), [&](std::size_t i) { return ad(s.huge32.some[i % 5]); }); }
                else { s.huge.n = n; queries(c, s.huge, n, [&](std::size_t i) { return ad(s.huge.some[i % 5]); }); }
            }},
            {{"at_array", G_SPECIAL, 2}, [](ContWorld& w, const Call& c) { T& s = *w.ts[c.t]; queries(c, s.arr, 3, [&](std::size_t i) { return ad(s.arr[i]); }); }},
            {{"at_string", G_SPECIAL, 2}, [](ContWorld& w, const Call& c) { T& s = *w.ts[c.t]; queries(c, s.str, s.m.size(), [&](std::size_t i) { return ad(s.str[i]); }); std::string_view sv = s.str; std::size_t i = index(c, sv.size()); c.quiet([&] { same_ref<const char&>(opt::at(sv, i), i < sv.size() ? &sv[i] : nullptr, "at of a view"); }); }},
            {{"at_list", G_SPECIAL, 2}, [](ContWorld& w, const Call& c) { T& s = *w.ts[c.t]; const bool e = !s.m.empty(); c.quiet([&] { same_ref<TF&>(opt::at_front(s.lst), e ? ad(s.lst.front()) : nullptr, "at_front of a list"); same_ref<const TF&>(opt::at_back(std::as_const(s.lst)), e ? ad(s.lst.back()) : nullptr, "at_back of a list"); }); }},
            {{"at_nothing", G_SPECIAL, 1}, [](ContWorld& w, const Call& c) { T& s = *w.ts[c.t]; std::size_t i = index(c, 0); c.quiet([&] { same_ref<int&>(opt::at(s.arr0, i), nullptr, "at of an empty array"); same_ref<const int&>(opt::at_front(std::as_const(s.arr0)), nullptr, "at_front of an empty array"); same_ref<int&>(opt::at_back(s.arr0), nullptr, "at_back of an empty array"); }); }},
            {{"write_at", G_SPECIAL, 3}, [](ContWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; const std::size_t n = s.m.size(), i = index(c, n); const int v = c.in(3, 6); bool wrote = false; const TF x(v);
                if (i < n && i == std::size_t(-1)) return;
                Out r = c.run([&] { if (auto o = opt::at(s.vec, i)) { *o = x; wrote = true; } });
                SIM_CHECK(O_RESULT, r != Out::ok || wrote == (i < n), "query-state", "at found %s element", wrote ? "a missing" : "no");
                if (i < n) { s.vec[i].raw(s.m[i]); }
            }},
            {{"insert_key", G_ASSIGN, 4}, [](ContWorld& w, const Call& c) { keyed(*w.ts[c.t], c.in(2, 9), c.in(3, 6)); }},
            {{"erase_key", G_ASSIGN, 3}, [](ContWorld& w, const Call& c) { unkeyed(*w.ts[c.t], c.in(2, 9)); }},
            {{"lookup_map", G_SPECIAL, 5}, [](ContWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int k = c.in(2, 9); const bool e = s.km.count(k); const int ck = k;
                if (c.a(3) % 2) looking<TF&>(c, [&] { return opt::lookup(s.map, ck); }, e ? ad(s.map.find(k)->second) : nullptr, "lookup in a map"); else looking<const TF&>(c, [&] { return opt::lookup(std::as_const(s.map), k + 0); }, e ? ad(s.map.find(k)->second) : nullptr, "lookup in a const map");
            }},
            {{"lookup_unordered", G_SPECIAL, 3}, [](ContWorld& w, const Call& c) { T& s = *w.ts[c.t]; int k = c.in(2, 9); const void* p = nullptr; { Disarm d; auto i = s.um.find(k); if (i != s.um.end()) p = ad(i->second); } looking<TF&>(c, [&] { return opt::lookup(s.um, k); }, p, "lookup in an unordered map"); }},
            {{"lookup_text", G_SPECIAL, 3}, [](ContWorld& w, const Call& c) { T& s = *w.ts[c.t]; int k = c.in(2, 9); const std::string key = text(k % 6) + std::to_string(k); const void* p = nullptr; { Disarm d; auto i = s.sm.find(key); if (i != s.sm.end()) p = ad(i->second); } if (c.a(3) % 2) looking<TF&>(c, [&] { return opt::lookup(s.sm, std::string_view(key)); }, p, "lookup by view"); else looking<const TF&>(c, [&] { return opt::lookup(std::as_const(s.sm), key.c_str()); }, p, "lookup by text"); }},
            {{"lookup_set", G_SPECIAL, 3}, [](ContWorld& w, const Call& c) { T& s = *w.ts[c.t]; int k = c.in(2, 9); const void* p = nullptr; { Disarm d; auto i = s.set.find(k); if (i != s.set.end()) p = ad(*i); } looking<const TF&>(c, [&] { return opt::lookup(s.set, k); }, p, "lookup in a set"); }},
            {{"lookup_multimap", G_SPECIAL, 1}, [](ContWorld& w, const Call& c) { T& s = *w.ts[c.t]; int k = c.in(2, 9); auto i = s.mm.find(k); looking<TF&>(c, [&] { return opt::lookup(s.mm, k); }, i == s.mm.end() ? nullptr : ad(i->second), "lookup in a multimap"); }},
            {{"lookup_equivalent", G_SPECIAL, 4}, [](ContWorld& w, const Call& c) { // found by the container's own idea of equality
                T& s = *w.ts[c.t]; const int k = c.in(2, 9), key = k + 9 * c.in(4, 4); const void* p[3] = {};
                { Disarm d; if (auto i = s.eqm.find(k); i != s.eqm.end()) p[0] = ad(i->second); if (auto i = s.equ.find(k); i != s.equ.end()) p[1] = ad(i->second); if (auto i = s.eqs.find(k); i != s.eqs.end()) p[2] = ad(*i); }
                switch (c.in(3, 5)) {
                case 0: looking<TF&>(c, [&] { return opt::lookup(s.eqm, key); }, p[0], "lookup of an equivalent key in a map"); break;
                case 1: looking<const TF&>(c, [&] { return opt::lookup(std::as_const(s.eqm), key + 0); }, p[0], "lookup of an equivalent key in a const map"); break;
                case 2: looking<TF&>(c, [&] { return opt::lookup(s.equ, key); }, p[1], "lookup of an equivalent key in an unordered map"); break;
                case 3: looking<const TF&>(c, [&] { return opt::lookup(std::as_const(s.equ), short(key)); }, p[1], "lookup of an equivalent key in a const unordered map"); break;
                default: looking<const int&>(c, [&] { return opt::lookup(s.eqs, key); }, p[2], "lookup of an equivalent key in a set"); }
            }},
            {{"lookup_own_map", G_SPECIAL, 4}, [](ContWorld& w, const Call& c) { T& s = *w.ts[c.t]; own(c, s, s.am, [&](int k) { return ad(s.am.m.find(k)->second.second); }); }},
            {{"lookup_own_set", G_SPECIAL, 4}, [](ContWorld& w, const Call& c) { T& s = *w.ts[c.t]; own(c, s, s.as, [&](int k) { return ad(*s.as.m.find(k)->second.second); }); }},
            {{"set_tuple", G_ASSIGN, 4}, [](ContWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int v = c.in(2, 6); Disarm d;
                switch (c.in(3, 8)) {
                case 0: s.tup.emplace(TF(v), v + 1, Thin(v, v + 2)); s.mt = v; break; case 1: s.tup.reset(); s.mt = -1; break;
                case 2: s.pr.emplace(TF(v), TF(v + 1)); s.mp = v; break; case 3: s.pr.reset(); s.mp = -1; break;
                case 4: s.ar2 = std::array<TF, 2>{TF(v), TF(v + 1)}; s.ma = v; break; case 5: s.ar2.reset(); s.ma = -1; break;
                case 6: s.tref.emplace(short(v), s.outside); s.mtr = v; break; default: s.tref.reset(); s.mtr = -1;
                }
            }},
            {{"get_tuple", G_SPECIAL, 5}, [](ContWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; const bool e = s.mt >= 0;
                switch (c.in(2, 6)) {
                case 0: gets<TF, 0>(c, s.tup, e ? ad(std::get<0>(*s.tup)) : nullptr, "get<0>"); break; case 1: gets<int, 1>(c, s.tup, e ? ad(std::get<1>(*s.tup)) : nullptr, "get<1>"); break; case 2: gets<Thin, 2>(c, s.tup, e ? ad(std::get<2>(*s.tup)) : nullptr, "get<2>"); break;
                case 3: gett<TF>(c, s.tup, e ? ad(std::get<0>(*s.tup)) : nullptr, "get<first type>"); break; case 4: gett<int>(c, s.tup, e ? ad(std::get<1>(*s.tup)) : nullptr, "get<second type>"); break; default: gett<Thin>(c, s.tup, e ? ad(std::get<2>(*s.tup)) : nullptr, "get<third type>"); break;
                }
            }},
            {{"get_pair", G_SPECIAL, 3}, [](ContWorld& w, const Call& c) { T& s = *w.ts[c.t]; const bool e = s.mp >= 0; if (c.a(2) % 2) gets<const TF, 0>(c, s.pr, e ? ad(s.pr->first) : nullptr, "get<0> of a pair"); else gets<TF, 1>(c, s.pr, e ? ad(s.pr->second) : nullptr, "get<1> of a pair"); }},
            {{"get_array", G_SPECIAL, 3}, [](ContWorld& w, const Call& c) { T& s = *w.ts[c.t]; const bool e = s.ma >= 0; if (c.a(2) % 2) gets<TF, 0>(c, s.ar2, e ? ad((*s.ar2)[0]) : nullptr, "get<0> of an array"); else gets<TF, 1>(c, s.ar2, e ? ad((*s.ar2)[1]) : nullptr, "get<1> of an array"); }},
            {{"get_reference", G_SPECIAL, 3}, [](ContWorld& w, const Call& c) { T& s = *w.ts[c.t]; const bool e = s.mtr >= 0; if (c.a(2) % 2) gets<short, 0>(c, s.tref, e ? ad(std::get<0>(*s.tref)) : nullptr, "get<0> of a tuple of an option"); else c.quiet([&] { same_ref<TF&>(opt::get<1>(s.tref), e ? ad(s.outside) : nullptr, "get of a reference element"); same_ref<TF&>(opt::get<1>(std::as_const(s.tref)), e ? ad(s.outside) : nullptr, "get of a reference element of const"); }); }},
            {{"write_get", G_SPECIAL, 2}, [](ContWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; if (s.mt < 0) return; const TF x(c.in(3, 6));
                Out r = c.run([&] { if (auto o = opt::get<0>(s.tup)) *o = x; });
                if (r == Out::ok) SIM_CHECK(O_VALUE, rd(std::get<0>(*s.tup)) == c.in(3, 6), "write-through", "writing through get<0> did not change the tuple");
                std::get<0>(*s.tup).raw(s.mt);
            }},
            {{"move_out", G_SPECIAL, 2}, [](ContWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; if (s.mt < 0) return;
                Out r = c.run([&] { auto o = opt::get<TF>(std::move(s.tup)); TF y = *std::move(o); SIM_CHECK(O_VALUE, rd(y) == s.mt, "move-through", "moving out through get gave another value"); });
                if (r == Out::ok) SIM_CHECK(O_MOVE, rd(std::get<0>(*s.tup)) == MOVED, "move-through", "moving through get copied");
                std::get<0>(*s.tup).raw(s.mt);
            }},
            {{"set_variant", G_ASSIGN, 5}, [](ContWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; int v = c.in(2, 6), k = c.in(3, 3);
                Out r = c.run([&] { if (k == 0) s.var.emplace<0>(v); else if (k == 1) s.var.emplace<1>(v); else s.var.emplace<2>(v, v); });
                if (r == Out::ok) { s.ix = std::size_t(k); s.mv = v; } else { s.ix = s.var.index(); if (s.ix == std::variant_npos) probe(20, "variant became valueless"); else { Disarm d; s.mv = std::visit([](auto& x) { return rd(x); }, s.var); } }
                Disarm d; switch (c.in(4, 4)) { case 0: s.vi = 3; break; case 1: s.vi = 2.5; break; case 2: s.vi = std::string("text"); break; default: s.vi = 'x'; } s.ixi = std::size_t(c.in(4, 4));
            }},
            {{"get_variant", G_SPECIAL, 6}, [](ContWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; const void* p0 = std::get_if<0>(&s.var); const void* p1 = std::get_if<1>(&s.var); const void* p2 = std::get_if<2>(&s.var);
                switch (c.in(2, 6)) {
                case 0: gets<TF, 0>(c, s.var, p0, "get<0> of a variant"); break; case 1: gets<int, 1>(c, s.var, p1, "get<1> of a variant"); break; case 2: gets<Thin, 2>(c, s.var, p2, "get<2> of a variant"); break;
                case 3: gett<TF>(c, s.var, p0, "get of the first type of a variant"); break; case 4: gett<int>(c, s.var, p1, "get of the second type of a variant"); break; default: gett<Thin>(c, s.var, p2, "get of the third type of a variant");
                }
            }},
            {{"get_plain_variant", G_SPECIAL, 3}, [](ContWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; const void* p1 = std::get_if<1>(&s.vi); const void* p2 = std::get_if<2>(&s.vi); const void* p3 = std::get_if<3>(&s.vi);
                switch (c.in(2, 4)) { case 0: gets<double, 1>(c, s.vi, p1, "get<1>"); break; case 1: gett<std::string>(c, s.vi, p2, "get<string>"); break; case 2: gets<char, 3>(c, s.vi, p3, "get<3>"); break; default: gett<double>(c, s.vi, p1, "get<double>"); }
            }},
            {{"get_option_of_variant", G_SPECIAL, 3}, [](ContWorld& w, const Call& c) { // asked for the alternative it holds
                T& s = *w.ts[c.t]; opt::option<VarI> o; { Disarm d; if (c.in(2, 4)) o = s.vi; } const bool e = o.has_value();
                if (e && o->index() == 0) { if (c.a(3) % 2) gets<int, 0>(c, o, ad(std::get<0>(*o)), "get<0> of an option of a variant"); else gett<int>(c, o, ad(std::get<0>(*o)), "get<int> of an option of a variant"); }
                else if (!e || o->index() == 2) { const void* p = e ? ad(std::get<2>(*o)) : nullptr; if (c.a(3) % 2) gets<std::string, 2>(c, o, p, "get<2> of an option of a variant"); else gett<std::string>(c, o, p, "get<string> of an option of a variant"); }
                else if (o->index() == 3) gets<char, 3>(c, o, ad(std::get<3>(*o)), "get<3> of an option of a variant"); else gett<double>(c, o, ad(std::get<1>(*o)), "get<double> of an option of a variant");
                SIM_CHECK(O_OTHER, o.has_value() == e && (!e || *o == s.vi), "variant-changed", "get changed an option of a variant");
            }},
            {{"from_pointer", G_SPECIAL, 2}, [](ContWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; const std::size_t n = s.m.size(); const bool e = n && c.a(2) % 3; std::size_t i = n ? std::size_t(c.a(3)) % n : 0;
                c.quiet([&] { TF* p = e ? &s.vec[i] : nullptr; const TF* cp = p; same_ref<TF&>(opt::from_nullable(p), p, "from_nullable"); same_ref<const TF&>(opt::from_nullable(cp), p, "from_nullable of const"); });
            }},
        };
        return t;
    }
    template<class A, class F> static void own(const Call& c, T& s, A& a, F at) {
        int k = c.in(2, 9); const bool e = s.km.count(k); const void* p = e ? at(k) : nullptr; SimKey key(k);
        const int l0 = a.lvalue_keys, r0 = a.rvalue_keys; const int kind = c.in(3, 4);
        if (kind == 0) looking<TF&>(c, [&] { return opt::lookup(a, key); }, p, "lookup in a container of the program");
        else if (kind == 1) looking<const TF&>(c, [&] { return opt::lookup(std::as_const(a), key); }, p, "lookup in a const container of the program");
        else if (kind == 2) looking<TF&>(c, [&] { return opt::lookup(a, std::move(key)); }, p, "lookup of an rvalue key");
        else looking<const TF&>(c, [&] { return opt::lookup(std::as_const(a), std::move(std::as_const(key))); }, p, "lookup of a const rvalue key");
        Disarm d;
        if (kind == 2) SIM_CHECK(O_FWD, a.rvalue_keys > r0 && a.lvalue_keys == l0, "key-category", "lookup did not forward its key");
        else SIM_CHECK(O_MOVE | O_OTHER, a.rvalue_keys == r0 && a.lvalue_keys > l0 && key.k == k, "key-category", "lookup moved from a key it was lent");
    }
};
SIM_MINI("containers", TG_CONT | TG_TRACKED, 4, ContWorld);
} // namespace sim
