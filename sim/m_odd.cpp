// Unusual but legitimate contained types: empty classes, over-aligned and large ones, types that can be made from
// anything, types without a value at all
#include "machine.hpp"
#include <any>
#include <optional>
namespace sim {
struct EmpT {}; // empty and trivial
struct EmpF final {};
template<unsigned K> struct Emp { // empty, and everything it does is seen and can fail
    static constexpr u32 type_id = 900 + K;
    void begin(Pt p) { if (point(p)) raise(); led_construct(this, type_id, "a constructor"); yield_point(); }
    void set(Pt p, const char* w) { led_use(this, type_id, w); if (point(p)) raise(); yield_point(); }
    int look(const char* w) const noexcept { led_use(this, type_id, w); return 0; }
    Emp() { begin(PT_CTOR_VAL); }
    explicit Emp(int) { begin(PT_CTOR_VAL); }
    Emp(const Src&) { begin(PT_CONV); }
    Emp(const Emp& o) { o.look("copy construction"); begin(PT_CTOR_COPY); }
    Emp(Emp&& o) { o.look("move construction"); begin(PT_CTOR_MOVE); }
    Emp& operator=(const Emp& o) { o.look("copy assignment"); set(PT_ASSIGN_COPY, "copy assignment"); return *this; }
    Emp& operator=(Emp&& o) { o.look("move assignment"); set(PT_ASSIGN_MOVE, "move assignment"); return *this; }
    Emp& operator=(const Src&) { set(PT_CONV, "converting assignment"); return *this; }
    ~Emp() { led_destroy(this, type_id, "a destructor"); yield_point(); }
};
template<unsigned K> bool operator==(const Emp<K>& a, const Emp<K>& b) { fpoint(PT_CMP); return a.look("a comparison") == b.look("a comparison"); }
template<unsigned K> bool operator!=(const Emp<K>& a, const Emp<K>& b) { return !(a == b); }
struct alignas(64) Wide { // over-aligned
    Tr<9u << 24> b;
    explicit Wide(int v) : b(v) { aligned(); }
    Wide(const Wide& o) : b(o.b) { aligned(); }
    Wide(Wide&& o) : b(static_cast<Tr<9u << 24>&&>(o.b)) { aligned(); }
    Wide& operator=(const Wide& o) = default;
    Wide& operator=(Wide&& o) = default;
    void aligned() const { SIM_CHECK(O_CRASH | O_LIFE, reinterpret_cast<std::uintptr_t>(this) % 64 == 0, "misaligned", "an over-aligned value was made at %p", static_cast<const void*>(this)); }
};
struct Large { // larger than anything that is passed in registers or copied at once
    unsigned char front[1500]; Tr<10u << 24> b; unsigned char back[1500];
    explicit Large(int v) : b(v) { std::memset(front, v, sizeof front); std::memset(back, v + 1, sizeof back); }
    Large(const Large&) = default; Large(Large&&) = default;
    void bytes(const Large& o) { std::memcpy(front, o.front, sizeof front); std::memcpy(back, o.back, sizeof back); }
    Large& operator=(const Large& o) { b = o.b; if (this != &o) bytes(o); return *this; }
    Large& operator=(Large&& o) { b = static_cast<Tr<10u << 24>&&>(o.b); if (this != &o) bytes(o); return *this; }
};
struct Greedy { // can be made from and assigned from everything
    Tr<11u << 24> b;
    template<class U> static int code(const U& u) { if constexpr (std::is_same_v<U, int>) return u; else return BAD; }
    template<class U, std::enable_if_t<!std::is_same_v<std::remove_cv_t<std::remove_reference_t<U>>, Greedy>, int> = 0> Greedy(U&& u) : b(code(u)) {}
    Greedy(const Greedy&) = default; Greedy(Greedy&&) = default; Greedy& operator=(const Greedy&) = default; Greedy& operator=(Greedy&&) = default;
    template<class U, std::enable_if_t<!std::is_same_v<std::remove_cv_t<std::remove_reference_t<U>>, Greedy>, int> = 0> Greedy& operator=(U&& u) { b = Tr<11u << 24>(code(u)); return *this; }
};
struct Comma { // overloads what nobody should
    int v; explicit Comma(int x) : v(x) {}
    template<class U> friend void operator,(const Comma&, U&&) = delete; template<class U> friend void operator,(U&&, const Comma&) = delete;
    Comma* operator&() = delete; const Comma* operator&() const = delete; bool operator!() const = delete;
};
inline bool operator==(const Comma& a, const Comma& b) { return a.v == b.v; }
inline bool operator!=(const Comma& a, const Comma& b) { return a.v != b.v; }
template<class T, class... A> struct ELOne : ELBase {
    static constexpr int N = 1; static constexpr bool comparable = false;
    static T make(int) { return T(A{}...); }
    static int read(const T&) { return 0; }
    static int moved(int, bool) { return 0; }
    template<class Fn> static decltype(auto) args(int, Fn&& f) { return f(A{}...); }
};
template<> struct EL<EmpT> : ELOne<EmpT> {};
template<> struct EL<EmpF> : ELOne<EmpF> {};
template<> struct EL<std::nullptr_t> : ELOne<std::nullptr_t> { static std::nullptr_t make(int) { return nullptr; } };
template<> struct EL<std::monostate> : ELOne<std::monostate> { static constexpr bool comparable = true, ordered = true; };
template<unsigned K> struct EL<Emp<K>> : ELOne<Emp<K>, int> { static constexpr bool tracked = true, comparable = true, has_src = true; static Src src(int v) { return Src{v}; } static int read(const Emp<K>& x) { return x.look("a read"); } };
template<class T> struct ELMem : ELBase {
    static constexpr int N = 6; static constexpr bool tracked = true, comparable = false;
    static T make(int v) { return T(v); }
    static int moved(int, bool) { return MOVED; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(v); }
};
template<> struct EL<Wide> : ELMem<Wide> { static int read(const Wide& x) { x.aligned(); return x.b.look("a read"); } };
template<> struct EL<Greedy> : ELMem<Greedy> { static int read(const Greedy& x) { return x.b.look("a read"); } };
template<> struct EL<Large> : ELMem<Large> {
    static int read(const Large& x) { int v = x.b.look("a read"); for (int i = 0; i < 1500; i += 13) if (x.front[i] >= N || x.back[i] != x.front[0] + 1 || x.front[i] != x.front[0]) return BAD; return v; }
};
template<> struct EL<Comma> : ELBase {
    static constexpr int N = 6; static Comma make(int v) { return Comma(v); } static int read(const Comma& x) { return x.v >= 0 && x.v < N ? x.v : int(BAD); } static int moved(int v, bool) { return v; } static constexpr bool ordered = false;
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(v); }
};
struct TabLong : ByEq<long double> { static constexpr int n = 6; static long double at(int v) { static const long double t[] = {-std::numeric_limits<long double>::infinity(), -1.5L, 0.0L, 1e-4000L, 2.0L, std::numeric_limits<long double>::infinity()}; return t[v]; } };
template<> struct EL<long double> : ELTable<long double, TabLong> {};
template<class I> struct TabI : ByEq<I> { static constexpr int n = 6; static I at(int v) { return v == 0 ? std::numeric_limits<I>::min() : v == 5 ? std::numeric_limits<I>::max() : I(std::numeric_limits<I>::min() + (std::numeric_limits<I>::max() - std::numeric_limits<I>::min() / 4 * 4) / 7 * v); } };
template<> struct EL<unsigned char> : ELTable<unsigned char, TabI<unsigned char>> {};
template<> struct EL<u64> : ELTable<u64, TabI<u64>> {};
template<> struct EL<char32_t> : ELTable<char32_t, TabI<char32_t>> {};
template<> struct EL<std::any> : ELBase {
    static constexpr int N = 6; static constexpr bool comparable = false;
    static std::any make(int v) { return v == 0 ? std::any() : v % 2 ? std::any(v) : std::any(std::string(std::size_t(v) * 11, 'a')); }
    static int read(const std::any& x) { if (!x.has_value()) return 0; if (auto p = std::any_cast<int>(&x)) return *p % 2 ? *p : int(BAD); if (auto p = std::any_cast<std::string>(&x)) return p->size() % 22 ? int(BAD) : int(p->size() / 11); return BAD; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(make(v)); }
};
template<> struct EL<std::optional<TF>> : ELBase {
    static constexpr int N = 6; static constexpr bool tracked = true, comparable = false;
    static std::optional<TF> make(int v) { if (v == 0) return std::nullopt; return std::optional<TF>(std::in_place, v); }
    static int read(const std::optional<TF>& x) { return x ? x->look("a read") : 0; }
    static int moved(int v, bool assign) { return v == 0 ? 0 : assign ? int(ANY) : int(MOVED); }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(make(v)); }
};
constexpr u32 TT = TG_TRACKED | TG_THROWS;
SIM_OPT("empty_trivial", TG_PLAIN | TG_FLAG, 1, EmpT);
SIM_OPT("empty_final", TG_PLAIN | TG_FLAG, 1, EmpF);
SIM_OPT("empty_tracked", TT | TG_FLAG, 3, Emp<0>);
SIM_OPT("nullptr", TG_FLAG, 1, std::nullptr_t);
SIM_OPT("monostate", TG_FLAG, 1, std::monostate);
SIM_OPT("overaligned", TT | TG_FLAG | TG_MOVE, 1, Wide);
SIM_OPT("large", TT | TG_FLAG | TG_MOVE, 1, Large);
SIM_OPT("made_from_anything", TT | TG_FLAG | TG_MOVE, 2, Greedy);
SIM_OPT("deleted_operators", TG_FLAG, 1, Comma);
SIM_OPT("long_double", TG_FLAG, 1, long double);
SIM_OPT("unsigned_char", TG_FLAG, 1, unsigned char);
SIM_OPT("unsigned_64", TG_FLAG, 1, u64);
SIM_OPT("char32", TG_FLAG, 1, char32_t);
SIM_OPT("any", TG_STD | TG_ALLOC, 1, std::any);
SIM_OPT("std_optional", TG_STD | TG_TRACKED | TG_THROWS, 1, std::optional<TF>);
} // namespace sim
