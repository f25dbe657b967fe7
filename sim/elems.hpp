// Contained types, instrumented so that every construction, assignment, destruction and use is seen by the
// simulator and can be made to fail, plus real types of the standard library.
#pragma once
#include "core.hpp"
#define OPTION_VERIFY_SIM(e, m) ((e) ? (void)0 : ::sim::verify_failed(#e, m))
#ifndef NDEBUG
#define OPTION_VERIFY(expression, message) OPTION_VERIFY_SIM(expression, message)
#endif
#include <array>
#include <complex>
#include <functional>
#include <limits>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <opt/option.hpp>

namespace sim {
// codes of values that are not plain domain values
enum : int { ANY = -1, MOVED = 1000, TORN = 1001, BAD = 1002 };
inline bool special(int v) { return v >= 1000 || v < 0; }

struct Src { int v; };          // what a contained object can be converted from

// ------------------------------------------------------------------ Tr: fully tracked
enum : unsigned { NOEXC = 1, NOCOPY = 2, NOMOVE = 4, NOASSIGN = 8, NICHE = 16, SWAP = 32, ADDR = 64 };

template<unsigned F>
struct TrBits { int val; unsigned chk; };
template<unsigned F>
struct Tr;

template<unsigned F>
constexpr bool tr_niche = (F & NICHE) != 0;

// where the niche lives for the types that have one: first, so that it is overwritten early
template<bool> struct TagField {};
template<> struct TagField<true> { unsigned tag; };

template<unsigned F>
struct TrCore : TagField<tr_niche<F>> {
    static constexpr unsigned TRF = F;
    static constexpr bool nx = (F & NOEXC) != 0;
    static constexpr u32 type_id = 100 + F;
    static constexpr unsigned salt = 0x5AFEC0DEu ^ (F * 0x01010101u);
    static constexpr unsigned LIVE = 0x600DBEEFu, EMPTY = 0xE0000000u, LEVELS = 3;
    int val;
    unsigned chk;

    void raw(int v) noexcept {
        if constexpr (tr_niche<F>) this->tag = LIVE;
        val = v; chk = unsigned(v) ^ salt;
    }
    void begin(Pt p, int v) noexcept(nx) { // common part of the constructors
        if constexpr (nx) { note_copy(p); yield_point(); }
        else if (point(p)) {
            if (fault_mode() >= 1) { if constexpr (tr_niche<F>) this->tag = LIVE; val = TORN; }
            if (fault_mode() == 2) raw(v);
            raise();
        }
        led_construct(this, type_id, "a constructor");
        raw(v);
        yield_point();
    }
    void assign(Pt p, int v, const char* what) noexcept(nx) {
        led_use(this, type_id, what);
        if constexpr (nx) { note_copy(p); yield_point(); }
        else if (point(p)) {
            if (fault_mode() == 1) raw(TORN);
            if (fault_mode() == 2) raw(v);
            raise();
        }
        raw(v);
        yield_point();
    }
    int look(const char* what) const noexcept {
        led_use(this, type_id, what);
        return chk == (unsigned(val) ^ salt) ? val : BAD;
    }
    void gone() noexcept { raw(MOVED); }

    void end() noexcept { led_destroy(this, type_id, "a destructor"); raw(BAD); chk = 0xDEAD; if constexpr (tr_niche<F>) this->tag = 0xDEADDEADu; yield_point(); }
};
template<unsigned F>
struct Tr : TrCore<F> {
    using TrCore<F>::nx; using TrCore<F>::begin; using TrCore<F>::assign;
    explicit Tr(int v) noexcept(nx) { begin(PT_CTOR_VAL, v); }
    Tr(const Src& s) noexcept(nx) { begin(PT_CONV, s.v); }
    Tr(const Tr& o) noexcept(nx) { begin(PT_CTOR_COPY, o.look("copy construction")); }
    Tr(Tr&& o) noexcept(nx) { begin(PT_CTOR_MOVE, o.look("move construction")); o.gone(); }
    Tr& operator=(const Tr& o) noexcept(nx) { assign(PT_ASSIGN_COPY, o.look("copy assignment"), "copy assignment"); return *this; }
    Tr& operator=(Tr&& o) noexcept(nx) { int v = o.look("move assignment"); if (&o == this) { yield_point(); return *this; } assign(PT_ASSIGN_MOVE, v, "move assignment"); o.gone(); return *this; }
    Tr& operator=(const Src& s) noexcept(nx) { assign(PT_CONV, s.v, "converting assignment"); return *this; }
    ~Tr() { this->end(); }
};
// move-only, copy-only and unassignable variants derive from the same body
struct TM { // move only
    Tr<1024> b;
    explicit TM(int v) : b(v) {}
    TM(TM&&) = default;
    TM& operator=(TM&&) = default;
};
struct TC { // no move operations; an unhelpful operator&
    Tr<2048> b;
    explicit TC(int v) : b(v) {}
    TC(const Src& s) : b(s) {}
    TC(const TC& o) : b(o.b) {}
    TC& operator=(const TC& o) { b = o.b; return *this; }
    TC& operator=(const Src& s) { b = s; return *this; }
    TC* operator&() { return nullptr; }
    const TC* operator&() const { return nullptr; }
};
struct TA { // cannot be assigned
    Tr<4096> b;
    explicit TA(int v) : b(v) {}
    TA(const TA& o) : b(o.b) {}
    TA(TA&& o) : b(static_cast<Tr<4096>&&>(o.b)) {}
    TA& operator=(const TA&) = delete;
    TA& operator=(TA&&) = delete;
};
struct TIL { // from an initializer list
    Tr<65536> b;
    explicit TIL(int v) : b(v) {}
    TIL(std::initializer_list<int> il, int extra) : b(sum(il) + extra) {}
    TIL(const TIL& o) : b(o.b) {}
    TIL(TIL&& o) : b(static_cast<Tr<65536>&&>(o.b)) {}
    TIL& operator=(const TIL& o) { b = o.b; return *this; }
    TIL& operator=(TIL&& o) { b = static_cast<Tr<65536>&&>(o.b); return *this; }
    static int sum(std::initializer_list<int> il) { int r = 0; for (int i : il) r += i; return r; }
};
struct Weird { // six relations that have nothing to do with each other
    int v;
    explicit Weird(int x) : v(x) {}
    static bool rel(int op, const Weird& a, const Weird& b) { fpoint(PT_CMP); return mix(u64(op) * 64 + u64(a.v) * 8 + u64(b.v), 3) & 1; }
};
inline bool operator==(const Weird& a, const Weird& b) { return Weird::rel(0, a, b); }
inline bool operator!=(const Weird& a, const Weird& b) { return Weird::rel(1, a, b); }
inline bool operator<(const Weird& a, const Weird& b) { return Weird::rel(2, a, b); }
inline bool operator<=(const Weird& a, const Weird& b) { return Weird::rel(3, a, b); }
inline bool operator>(const Weird& a, const Weird& b) { return Weird::rel(4, a, b); }
inline bool operator>=(const Weird& a, const Weird& b) { return Weird::rel(5, a, b); }
struct Agg { // aggregate: brace initialised
    Tr<8192> a;
    bool b;
};
struct Poly { // polymorphic
    Tr<16384> b;
    explicit Poly(int v) : b(v) {}
    Poly(const Src& s) : b(s) {}
    Poly(const Poly& o) : b(o.b) {}
    Poly(Poly&& o) : b(static_cast<Tr<16384>&&>(o.b)) {}
    Poly& operator=(const Poly& o) { b = o.b; return *this; }
    Poly& operator=(Poly&& o) { b = static_cast<Tr<16384>&&>(o.b); return *this; }
    Poly& operator=(const Src& s) { b = s; return *this; }
    virtual ~Poly() {}
    virtual int tag() const { return 7; }
};
// tracked, with every combination of trivial and other assignments (the destructor and the constructors are not trivial)
#define SIM_TY(NAME, F_, CA_, MA_)                                                                                                    \
    struct NAME : TrCore<F_> {                                                                                                          \
        explicit NAME(int v) { begin(PT_CTOR_VAL, v); }                                                                                 \
        NAME(const Src& s) { begin(PT_CONV, s.v); }                                                                                     \
        NAME(const NAME& o) : TrCore<F_>() { begin(PT_CTOR_COPY, o.look("copy construction")); }                                        \
        NAME(NAME&& o) : TrCore<F_>() { begin(PT_CTOR_MOVE, o.look("move construction")); o.gone(); }                                   \
        NAME& operator=(const Src& s) { assign(PT_CONV, s.v, "converting assignment"); return *this; }                                  \
        SIM_TYCA_##CA_(NAME) SIM_TYMA_##MA_(NAME)                                                                                       \
        ~NAME() { end(); }                                                                                                              \
        static constexpr bool ty_ma = MA_ != 0;                                                                                         \
    }
#define SIM_TYCA_0(NAME) NAME& operator=(const NAME&) = default;
#define SIM_TYMA_0(NAME) NAME& operator=(NAME&&) = default;
#define SIM_TYCA_1(NAME) NAME& operator=(const NAME& o) { assign(PT_ASSIGN_COPY, o.look("copy assignment"), "copy assignment"); return *this; }
#define SIM_TYMA_1(NAME) NAME& operator=(NAME&& o) { int v = o.look("move assignment"); if (&o == this) { yield_point(); return *this; } assign(PT_ASSIGN_MOVE, v, "move assignment"); o.gone(); return *this; }
SIM_TY(TyA, 1u << 20, 0, 0);
SIM_TY(TyB, 2u << 20, 1, 0);
SIM_TY(TyC, 3u << 20, 0, 1);
SIM_TY(TyD, (4u << 20) | NICHE, 0, 0);
SIM_TY(TyE, (5u << 20) | NICHE, 1, 0);
SIM_TY(TyF, (6u << 20) | NICHE, 0, 1);

using TF = Tr<0>;
using TFN = Tr<NOEXC>;
using TN = Tr<NICHE | SWAP>;
using TNN = Tr<NICHE | NOEXC>;

// comparisons of tracked objects (by value), with their own fault point
template<unsigned F> int cmp_val(const TrCore<F>& x) { fpoint(PT_CMP); return x.look("a comparison"); }
template<unsigned F> bool operator==(const TrCore<F>& a, const TrCore<F>& b) { return cmp_val(a) == b.look("a comparison"); }
template<unsigned F> bool operator!=(const TrCore<F>& a, const TrCore<F>& b) { return cmp_val(a) != b.look("a comparison"); }
template<unsigned F> bool operator<(const TrCore<F>& a, const TrCore<F>& b) { return cmp_val(a) < b.look("a comparison"); }
template<unsigned F> bool operator>(const TrCore<F>& a, const TrCore<F>& b) { return cmp_val(a) > b.look("a comparison"); }
template<unsigned F> bool operator<=(const TrCore<F>& a, const TrCore<F>& b) { return cmp_val(a) <= b.look("a comparison"); }
template<unsigned F> bool operator>=(const TrCore<F>& a, const TrCore<F>& b) { return cmp_val(a) >= b.look("a comparison"); }

inline void swap(TN& a, TN& b) {
    int x = a.look("swap"), y = b.look("swap");
    if (point(PT_SWAP)) { if (fault_mode() == 1) a.raw(TORN); if (fault_mode() == 2) { a.raw(y); b.raw(x); } raise(); }
    a.raw(y); yield_point(); b.raw(x);
}

// ------------------------------------------------------------------ Plain: every combination of trivial special members
enum : unsigned { CC = 1, CA = 2, MC = 4, MA = 8, DT = 16, PN = 32 /*niche*/ };
template<unsigned F>
struct PlainData { unsigned tag; int val; unsigned chk; };

template<bool NT> struct MarkDtor { };
template<> struct MarkDtor<true> { ~MarkDtor() {} };

#define SIM_PLAIN_BODY(NAME, F_)                                                                                   \
    static constexpr unsigned F = F_;                                                                              \
    static constexpr unsigned salt = 0x0BADF00Du ^ (F_ * 0x01010101u);                                             \
    unsigned tag;                                                                                                  \
    int val;                                                                                                       \
    unsigned chk;                                                                                                  \
    void raw(int v) noexcept { tag = 0x600DBEEFu; val = v; chk = unsigned(v) ^ salt; }                             \
    int look() const noexcept { return chk == (unsigned(val) ^ salt) && tag == 0x600DBEEFu ? val : int(BAD); }     \
    explicit NAME(int v) { if (point(PT_CTOR_VAL)) { if (fault_mode()) raw(v); raise(); } raw(v); }

#define SIM_CC(NAME) NAME(const NAME& o) { if (point(PT_CTOR_COPY)) { if (fault_mode()) raw(o.val); raise(); } raw(o.look()); }
#define SIM_CA(NAME) NAME& operator=(const NAME& o) { if (point(PT_ASSIGN_COPY)) { if (fault_mode() == 1) raw(TORN); if (fault_mode() == 2) raw(o.val); raise(); } raw(o.look()); return *this; }
#define SIM_MC(NAME) NAME(NAME&& o) { if (point(PT_CTOR_MOVE)) { if (fault_mode()) raw(o.val); raise(); } raw(o.look()); o.raw(MOVED); }
#define SIM_MA(NAME) NAME& operator=(NAME&& o) { if (this == &o) return *this; if (point(PT_ASSIGN_MOVE)) { if (fault_mode() == 1) raw(TORN); if (fault_mode() == 2) raw(o.val); raise(); } raw(o.look()); o.raw(MOVED); return *this; }
#define SIM_DT(NAME) ~NAME() { raw(BAD); chk = 0xDEAD; tag = 0xDEADDEADu; }
#define SIM_D(NAME) NAME(const NAME&) = default;
#define SIM_DEF_CC(NAME) NAME(const NAME&) = default;
#define SIM_DEF_CA(NAME) NAME& operator=(const NAME&) = default;
#define SIM_DEF_MC(NAME) NAME(NAME&&) = default;
#define SIM_DEF_MA(NAME) NAME& operator=(NAME&&) = default;
#define SIM_DEF_DT(NAME) ~NAME() = default;
// NAME, flags, cc, ca, mc, ma, dt: either DEF_xx or xx
#define SIM_PLAIN(NAME, FL, cc, ca, mc, ma, dt) struct NAME { SIM_PLAIN_BODY(NAME, (FL)) SIM_##cc(NAME) SIM_##ca(NAME) SIM_##mc(NAME) SIM_##ma(NAME) SIM_##dt(NAME) }

// the eight selections made from (copy ctor, copy assignment, move ctor, move assignment), both with and without
// a trivial destructor, both with a flag and with a niche
SIM_PLAIN(PlA, 0, DEF_CC, DEF_CA, DEF_MC, DEF_MA, DEF_DT);
SIM_PLAIN(PlB, CC, CC, DEF_CA, DEF_MC, DEF_MA, DEF_DT);
SIM_PLAIN(PlC, CA, DEF_CC, CA, DEF_MC, DEF_MA, DEF_DT);
SIM_PLAIN(PlD, MC, DEF_CC, DEF_CA, MC, DEF_MA, DEF_DT);
SIM_PLAIN(PlE, CC | MC, CC, DEF_CA, MC, DEF_MA, DEF_DT);
SIM_PLAIN(PlF, CA | MC, DEF_CC, CA, MC, DEF_MA, DEF_DT);
SIM_PLAIN(PlG, MA, DEF_CC, DEF_CA, DEF_MC, MA, DEF_DT);
SIM_PLAIN(PlH, CC | MA, CC, DEF_CA, DEF_MC, MA, DEF_DT);
SIM_PLAIN(PlI, CA | MA, DEF_CC, CA, DEF_MC, MA, DEF_DT);
SIM_PLAIN(PlJ, CC | CA | MC | MA, CC, CA, MC, MA, DEF_DT);
SIM_PLAIN(PlK, DT, DEF_CC, DEF_CA, DEF_MC, DEF_MA, DT);
SIM_PLAIN(PlL, CC | CA | MC | MA | DT, CC, CA, MC, MA, DT);
SIM_PLAIN(PnA, PN, DEF_CC, DEF_CA, DEF_MC, DEF_MA, DEF_DT);
SIM_PLAIN(PnB, PN | CC, CC, DEF_CA, DEF_MC, DEF_MA, DEF_DT);
SIM_PLAIN(PnC, PN | CA, DEF_CC, CA, DEF_MC, DEF_MA, DEF_DT);
SIM_PLAIN(PnD, PN | MC, DEF_CC, DEF_CA, MC, DEF_MA, DEF_DT);
SIM_PLAIN(PnF, PN | CA | MC, DEF_CC, CA, MC, DEF_MA, DEF_DT);
SIM_PLAIN(PnG, PN | MA, DEF_CC, DEF_CA, DEF_MC, MA, DEF_DT);
SIM_PLAIN(PnH, PN | CC | MA, CC, DEF_CA, DEF_MC, MA, DEF_DT);
SIM_PLAIN(PnI, PN | CA | MA, DEF_CC, CA, DEF_MC, MA, DEF_DT);
SIM_PLAIN(PnJ, PN | CC | CA | MC | MA, CC, CA, MC, MA, DEF_DT);
SIM_PLAIN(PnK, PN | DT, DEF_CC, DEF_CA, DEF_MC, DEF_MA, DT);
SIM_PLAIN(PnL, PN | CC | CA | MC | MA | DT, CC, CA, MC, MA, DT);

template<class T, class = void> inline constexpr bool is_plain = false;
template<class T> inline constexpr bool is_plain<T, decltype(T::F, std::declval<const T&>().look(), void())> = true;
template<class T, std::enable_if_t<is_plain<T>, int> = 0> bool operator==(const T& a, const T& b) { fpoint(PT_CMP); return a.look() == b.look(); }
template<class T, std::enable_if_t<is_plain<T>, int> = 0> bool operator!=(const T& a, const T& b) { fpoint(PT_CMP); return a.look() != b.look(); }
template<class T, std::enable_if_t<is_plain<T>, int> = 0> bool operator<(const T& a, const T& b) { fpoint(PT_CMP); return a.look() < b.look(); }

// ------------------------------------------------------------------ types with the documented customisation points
enum class ESent : unsigned char { a, b, c, SENTINEL = 250 };
enum class EStart : unsigned short { a, b, c, SENTINEL_START = 60000 };
enum class ERange : int { a = -5, b = 0, c = 2000, SENTINEL_START = 100, SENTINEL_END = 140 };
enum class EExt : int { a = -2147483647 - 1, b = 0, c = 2147483647, SENTINEL_START = -10, SENTINEL_END = -1 };
enum class EExtS : int { a = -2147483647 - 1, b = 0, c = 2147483647, SENTINEL = 100 };
enum class ESChar : signed char { a = -128, b = 0, c = 99, SENTINEL_START = 100 };
enum class EPlain : unsigned char { a, b, c, d = 200 };
enum class E64 : u64 { a = 0, b = 1, SENTINEL = 9, c = 0xFFFFFFFFFFFFFFFFull };
enum class E64Range : std::int64_t { a = 0, b = 1, SENTINEL_START = -20, SENTINEL_END = -11 };
enum class E64Start : u64 { a = 0, SENTINEL_START = 0xFFFFFFFFFFFFFF00ull };
enum class EWide : unsigned { a, b, c = 300 };
// found by reflection: flags whose combinations are values, one enumerator, enumerators further away than are looked for, all values used
enum class EFlags : unsigned char { a = 1, b = 2, c = 4 };
enum class EOne : unsigned { a };
enum class ETwo : unsigned char { a, b };
enum class EFar : unsigned { a, c = 5000 };
enum class EHi : unsigned short { a, c = 1000 };
enum class EMid : unsigned short { a, c = 511 };
enum EUnscoped { eu_a, eu_b, eu_c = 9 };
enum class EC16 : char16_t { a, b = 17 };
enum class EBool : bool { f, t };
enum class EBool0 : bool { f };
struct Padded { int x; short y; unsigned char PADDING = 0; };
struct PaddedInt { unsigned PADDING = 0; int x; };
struct PaddedWide { short x; unsigned short PADDING = 0; int y; };
struct Two { virtual ~Two() {} int a; virtual int g() const { return a; } };
struct One { int o = 5; };
struct PolyMulti : One, Two { explicit PolyMulti(int v) { a = v; } int g() const override { return a + 1; } };
struct PolyTriv { int v; explicit PolyTriv(int x) : v(x) {} virtual int g() const { return v; } }; // trivial destructor
struct MembersOf { int a, b, c; void f() {} void g() {} int h(int x) { return x; } };
struct TupleLike { short s; bool flag; int i; };  // get<I> + std::tuple_size
template<std::size_t I> auto& get(TupleLike& x) { if constexpr (I == 0) return x.s; else if constexpr (I == 1) return x.flag; else return x.i; }
template<std::size_t I> auto& get(const TupleLike& x) { if constexpr (I == 0) return x.s; else if constexpr (I == 1) return x.flag; else return x.i; }
struct Reflect { int a; bool b; double c; };      // structured through Boost.PFR where present
struct SentOpt { int v; };                        // sentinel_option_traits
inline constexpr bool operator==(const SentOpt& a, const SentOpt& b) { return a.v == b.v; }
struct UserTr { int v; unsigned char level; };    // user option_traits, many levels
struct IntCmp { bool operator()(int a, int b) const noexcept { return a == b; } };
struct IntSet { void operator()(int& a, int b) const noexcept { a = b; } };
struct WithMember { int x = 0; bool m = false; WithMember() = default; WithMember(int a, bool b) : x(a), m(b) {} };
} // namespace sim

template<> struct std::tuple_size<sim::TupleLike> : std::integral_constant<std::size_t, 3> {};
template<std::size_t I> struct std::tuple_element<I, sim::TupleLike> { using type = std::remove_reference_t<decltype(sim::get<I>(std::declval<sim::TupleLike&>()))>; };
template<unsigned F> struct std::hash<sim::Tr<F>> {
    std::size_t operator()(const sim::Tr<F>& x) const { sim::fpoint(sim::PT_HASH); return std::size_t(x.look("hash")) * 2654435761u + 12345; }
};
#ifdef OPTION_HAS_PFR
namespace boost::pfr { template<> struct is_reflectable<sim::Reflect, opt::option_tag> : std::true_type {}; }
#endif

template<class T> struct sim_ty_hash { std::size_t operator()(const T& x) const { sim::fpoint(sim::PT_HASH); return std::size_t(x.look("hash")) * 2654435761u + 12345; } };
template<> struct std::hash<sim::TyA> : sim_ty_hash<sim::TyA> {}; template<> struct std::hash<sim::TyB> : sim_ty_hash<sim::TyB> {}; template<> struct std::hash<sim::TyC> : sim_ty_hash<sim::TyC> {};
template<> struct std::hash<sim::TyD> : sim_ty_hash<sim::TyD> {}; template<> struct std::hash<sim::TyE> : sim_ty_hash<sim::TyE> {}; template<> struct std::hash<sim::TyF> : sim_ty_hash<sim::TyF> {};
// option traits of the instrumented types: they check that they are called within their contract
template<class T_>
struct opt::option_traits<T_, std::enable_if_t<sim::tr_niche<T_::TRF>>> {
    using T = T_;
    static constexpr std::uintmax_t max_level = T::LEVELS;
    static std::uintmax_t get_level(const T* p) noexcept {
        unsigned t; std::memcpy(&t, static_cast<const void*>(p), sizeof t);
        return t >= T::EMPTY && t < T::EMPTY + T::LEVELS ? t - T::EMPTY : std::uintmax_t(-1);
    }
    static void set_level(T* p, std::uintmax_t level) noexcept {
        SIM_CHECK(sim::O_TRAITS, level < max_level, "level-range", "set_level called with level %llu of %llu", (unsigned long long)level, (unsigned long long)max_level);
        SIM_CHECK(sim::O_TRAITS, !sim::led_live(p, T::type_id), "level-over-live", "set_level called on a live object");
        unsigned t = T::EMPTY + unsigned(level); std::memcpy(static_cast<void*>(p), &t, sizeof t);
    }
};
template<class T>
struct opt::option_traits<T, std::enable_if_t<sim::is_plain<T> && (T::F & sim::PN) != 0>> {
    static constexpr std::uintmax_t max_level = 2;
    static std::uintmax_t get_level(const T* p) noexcept {
        unsigned t; std::memcpy(&t, static_cast<const void*>(p), sizeof t);
        return t >= 0xE0000000u && t < 0xE0000002u ? t - 0xE0000000u : std::uintmax_t(-1);
    }
    static void set_level(T* p, std::uintmax_t level) noexcept {
        SIM_CHECK(sim::O_TRAITS, level < max_level, "level-range", "set_level called with level %llu", (unsigned long long)level);
        unsigned t = 0xE0000000u + unsigned(level); std::memcpy(static_cast<void*>(p), &t, sizeof t);
    }
};
template<> struct opt::option_traits<sim::UserTr> {
    static constexpr std::uintmax_t max_level = 200;
    static std::uintmax_t get_level(const sim::UserTr* p) noexcept { return std::uintmax_t(p->level) - 1; }
    static void set_level(sim::UserTr* p, std::uintmax_t level) noexcept {
        SIM_CHECK(sim::O_TRAITS, level < max_level, "level-range", "set_level called with level %llu", (unsigned long long)level);
        p->level = static_cast<unsigned char>(level + 1);
    }
};
template<> struct opt::sentinel_option_traits<sim::SentOpt> { static constexpr sim::SentOpt sentinel_value{-777}; };

namespace sim {
// ------------------------------------------------------------------ EL: how the machine makes and reads a T
// N distinct values 0..N-1; make(v); read(const T&); moved(v, assign): what a source holds after it was moved from
struct ELBase {
    static constexpr bool tracked = false;
    static constexpr bool has_src = false;
    static constexpr bool comparable = true;
    static constexpr bool has_il = false;
    static constexpr bool ordered = true;     // < on T is < on the domain
    static int moved(int, bool) { return ANY; }
};
template<class T, class = void> struct EL;

#define SIM_EL_TR(T, MEM)                                                                      \
    template<> struct EL<T> : ELBase {                                                         \
        static constexpr int N = 6;                                                            \
        static constexpr bool tracked = true;                                                  \
        static T make(int v) { return T(v); }                                                  \
        static int read(const T& x) { return x MEM.look("a read"); }                           \
        static int moved(int, bool) { return MOVED; }                                          \
        template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(v); }          \
    }
#define SIM_EL_TRC(T, MEM)                                                                     \
    template<> struct EL<T> : ELBase {                                                         \
        static constexpr int N = 6;                                                            \
        static constexpr bool tracked = true, has_src = true;                                  \
        static Src src(int v) { return Src{v}; }                                               \
        static T make(int v) { return T(v); }                                                  \
        static int read(const T& x) { return x MEM.look("a read"); }                           \
        static int moved(int v, bool) { return std::is_same_v<T, TC> ? v : int(MOVED); }       \
        template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(v); }          \
    }
SIM_EL_TRC(TF, ); SIM_EL_TRC(TFN, ); SIM_EL_TRC(TN, ); SIM_EL_TRC(TNN, ); SIM_EL_TRC(TC, .b); SIM_EL_TRC(Poly, .b);
SIM_EL_TR(TM, .b); SIM_EL_TR(TA, .b);
template<class T> struct EL<T, decltype(T::ty_ma, void())> : ELBase {
    static constexpr int N = 6;
    static constexpr bool tracked = true, has_src = true;
    static Src src(int v) { return Src{v}; }
    static T make(int v) { return T(v); }
    static int read(const T& x) { return x.look("a read"); }
    static int moved(int v, bool assign) { return assign && !T::ty_ma ? v : int(MOVED); }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(v); }
};
template<> struct EL<TIL> : ELBase {
    static constexpr int N = 6;
    static constexpr bool tracked = true, has_il = true;
    static TIL make(int v) { return TIL(v); }
    static int read(const TIL& x) { return x.b.look("a read"); }
    static int moved(int, bool) { return MOVED; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(v); }
    template<class Fn> static void il(int v, Fn&& f) { std::initializer_list<int> l = {1, -2, 3}; f(l, v - 2); }
};
template<> struct EL<Weird> : ELBase {
    static constexpr int N = 6; static constexpr bool ordered = false;
    static Weird make(int v) { return Weird(v); }
    static int read(const Weird& x) { return x.v >= 0 && x.v < N ? x.v : int(BAD); }
    static int moved(int v, bool) { return v; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(v); }
};

template<class T> struct EL<T, std::enable_if_t<is_plain<T>>> : ELBase {
    static constexpr int N = 6;
    static T make(int v) { return T(v); }
    static int read(const T& x) { return x.look(); }
    static int moved(int v, bool assign) { return (T::F & (assign ? MA : MC)) ? int(MOVED) : v; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(v); }
};
template<> struct EL<Agg> : ELBase {
    static constexpr int N = 12;
    static constexpr bool tracked = true;
    static Agg make(int v) { return Agg{Tr<8192>(v / 2), v % 2 != 0}; }
    static int read(const Agg& x) { int a = x.a.look("a read"); return special(a) ? a : a * 2 + x.b; }
    static int moved(int, bool) { return MOVED; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(Tr<8192>(v / 2), v % 2 != 0); }
};
// scalars and simple values: a table of bit patterns
template<class T, class Tab> struct ELTable : ELBase {
    static constexpr int N = Tab::n;
    static T make(int v) { return Tab::at(v); }
    static int read(const T& x) { for (int i = 0; i < N; ++i) { T y = Tab::at(i); if (Tab::same(x, y)) return i; } return BAD; }
    static int moved(int v, bool) { return v; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(Tab::at(v)); }
};
template<class T> struct ByEq { static bool same(const T& a, const T& b) { return a == b; } };
template<class T> struct ByBits { static bool same(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; } };
struct TabInt : ByEq<int> { static constexpr int n = 8; static int at(int v) { static const int t[] = {std::numeric_limits<int>::min(), -2, -1, 0, 1, 2, 3, std::numeric_limits<int>::max()}; return t[v]; } };
template<> struct EL<int> : ELTable<int, TabInt> { static constexpr bool has_src = true; static long long src(int v) { return TabInt::at(v); } };
struct TabBool : ByBits<bool> { static constexpr int n = 2; static bool at(int v) { return v == 1; } };
template<> struct EL<bool> : ELTable<bool, TabBool> {};
template<class D, class U> D from_bits(U u) { D d; static_assert(sizeof d == sizeof u); std::memcpy(&d, &u, sizeof d); return d; }
// signaling NaNs are values if quiet ones are the levels, and the other way round
#if defined(OPTION_USE_QUIET_NAN) && OPTION_USE_QUIET_NAN
#define OTHER_NAN(quiet, signaling) signaling
#else
#define OTHER_NAN(quiet, signaling) quiet
#endif
struct TabDouble : ByBits<double> {
    static constexpr u64 bits[] = {0xFFF0000000000000ull /*-inf*/, 0xC000000000000000ull, 0x8000000000000001ull, 0, 1, 0x3FF0000000000000ull, 0x7FF0000000000000ull,
        // unordered from here
        0x8000000000000000ull /*-0*/, 0x7FF8000000000000ull, 0xFFF8000000000000ull, 0x7FF0000000000001ull /*sNaN*/, 0xFFFFFFFFFFFFFFFFull,
        0xFFF6C79F55B0898Eull, 0xFFF6C79F55B08A8Full, 0x7FF6C79F55B0898Full, OTHER_NAN(0xFFFBF26430BB3557ull, 0xFFF6C79F55B0898Full), OTHER_NAN(0xFFFBF26430BB35C0ull, 0xFFF6C79F55B08A00ull), 0xFFFBF26430BB3556ull, 0xFFFBF26430BB3657ull, 0x7FFBF26430BB3557ull};
    static constexpr int n = sizeof bits / sizeof *bits;
    static double at(int v) { return from_bits<double>(bits[v]); }
};
template<> struct EL<double> : ELTable<double, TabDouble> { static constexpr bool ordered = false; };
struct TabFloat : ByBits<float> {
    static constexpr u32 bits[] = {0xFF800000u, 0xC0000000u, 0, 1, 0x3F800000u, 0x7F800000u, 0x80000000u, 0x7FC00000u, 0xFFC00000u, 0x7F800001u, 0xFFFFFFFFu,
        0xFFBF69AEu, 0xFFBF6AAFu, 0x7FBF69AFu, OTHER_NAN(0xFFC3EFB5u, 0xFFBF69AFu), OTHER_NAN(0xFFC3F010u, 0xFFBF6A20u), 0xFFC3EFB4u, 0xFFC3F0B5u, 0x7FC3EFB5u};
    static constexpr int n = sizeof bits / sizeof *bits;
    static float at(int v) { return from_bits<float>(bits[v]); }
};
template<> struct EL<float> : ELTable<float, TabFloat> { static constexpr bool ordered = false; };
template<class D, class Tab> struct ELComplex : ELBase {
    static constexpr int N = Tab::n; static constexpr bool ordered = false;
    static std::complex<D> make(int v) { return {Tab::at(v), D(4)}; }
    static int read(const std::complex<D>& x) { D r = x.real(); return x.imag() == D(4) ? EL<D>::read(r) : int(BAD); }
    static int moved(int v, bool) { return v; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(Tab::at(v), D(4)); }
};
template<> struct EL<std::complex<double>> : ELComplex<double, TabDouble> {};
template<> struct EL<std::complex<float>> : ELComplex<float, TabFloat> {};
extern int arena[32];
template<class X> struct TabPtr : ByBits<X*> {
    static constexpr int n = 9;
    static X* at(int v) { return reinterpret_cast<X*>(reinterpret_cast<std::uintptr_t>(raw(v))); }
    static int* raw(int v) {
        switch (v) { case 0: return nullptr; case 1: return arena; case 2: return arena + 1; case 3: return arena + 16; case 4: return reinterpret_cast<int*>(std::uintptr_t(1));
        case 5: return reinterpret_cast<int*>(std::uintptr_t(-1)); case 6: return reinterpret_cast<int*>(std::uintptr_t(0xF8E1B1825D5D6C66ull)); case 7: return reinterpret_cast<int*>(std::uintptr_t(0xF8E1B1825D5D6E67ull));
        default: return reinterpret_cast<int*>(std::uintptr_t(255)); }
    }
};
template<class X> struct EL<X*, std::enable_if_t<!std::is_function_v<X>>> : ELTable<X*, TabPtr<X>> { static constexpr bool ordered = false; };
void fn_a(); void fn_b();
struct TabFn : ByBits<void (*)()> { static constexpr int n = 3; static auto at(int v) -> void (*)() { return v == 0 ? nullptr : v == 1 ? fn_a : fn_b; } };
template<> struct EL<void (*)()> : ELTable<void (*)(), TabFn> { static constexpr bool ordered = false; };
using MemD = int MembersOf::*; using MemF = void (MembersOf::*)();
struct TabMemD : ByEq<MemD> { static constexpr int n = 6; static MemD at(int v) { return v == 4 ? from_bits<MemD>(0xFFFFFFFFD3B2F9B1ull) : v == 5 ? from_bits<MemD>(0xFFFFFFFFD3B2FAB1ull) : v == 0 ? nullptr : v == 1 ? &MembersOf::a : v == 2 ? &MembersOf::b : &MembersOf::c; } };
struct TabMemF : ByEq<MemF> { static constexpr int n = 3; static MemF at(int v) { return v == 0 ? nullptr : v == 1 ? &MembersOf::f : &MembersOf::g; } };
template<> struct EL<MemD> : ELTable<MemD, TabMemD> { static constexpr bool ordered = false; };
template<> struct EL<MemF> : ELTable<MemF, TabMemF> { static constexpr bool ordered = false; };
template<> struct EL<std::reference_wrapper<int>> : ELBase {
    static constexpr int N = 8; static constexpr bool ordered = false, comparable = false;
    static int& at(int v) { return v >= 6 ? *reinterpret_cast<int*>(std::uintptr_t(v == 6 ? 256 : 260)) : arena[v]; }
    static std::reference_wrapper<int> make(int v) { return at(v); }
    static int read(const std::reference_wrapper<int>& x) { for (int v = 0; v < N; ++v) if (&x.get() == &at(v)) return v; return BAD; }
    static int moved(int v, bool) { return v; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(at(v)); }
};
template<class E_, int... V> struct TabEnum : ByEq<E_> { static constexpr int n = sizeof...(V); static E_ at(int v) { constexpr int t[] = {V...}; return E_(t[v]); } };
template<> struct EL<ESent> : ELTable<ESent, TabEnum<ESent, 0, 1, 2, 249, 251, 255>> {};
template<> struct EL<EStart> : ELTable<EStart, TabEnum<EStart, 0, 1, 2, 59999>> {};
template<> struct EL<ERange> : ELTable<ERange, TabEnum<ERange, -5, 0, 99, 141, 2000>> {};
template<> struct EL<EExt> : ELTable<EExt, TabEnum<EExt, -2147483647 - 1, -11, 0, 2147483647>> {};
template<> struct EL<EExtS> : ELTable<EExtS, TabEnum<EExtS, -2147483647 - 1, -11, 0, 99, 101, 2147483647>> {};
template<> struct EL<ESChar> : ELTable<ESChar, TabEnum<ESChar, -128, -1, 0, 99>> {};
template<> struct EL<EPlain> : ELTable<EPlain, TabEnum<EPlain, 0, 1, 2, 200>> {};
template<class E_, long long... V> struct TabEnum64 : ByEq<E_> { static constexpr int n = sizeof...(V); static E_ at(int v) { constexpr long long t[] = {V...}; return E_(t[v]); } };
template<> struct EL<E64> : ELTable<E64, TabEnum64<E64, 0, 1, 8, 10, 265, 0x100000009ll, 0x900000000ll, -1>> { static constexpr bool ordered = false; };
template<> struct EL<E64Range> : ELTable<E64Range, TabEnum64<E64Range, std::numeric_limits<long long>::min(), -4294967296ll - 15, -21, -10, 0, 1, 0xFFFFFFECll, 0xFFFFFFF0ll, 4294967296ll - 15, std::numeric_limits<long long>::max()>> {};
template<> struct EL<E64Start> : ELTable<E64Start, TabEnum64<E64Start, 0, 1, 0xFFFFFF00ll, 0xFFFFFFFFll, 0xFFFFll, -257>> { static constexpr bool ordered = false; };
template<> struct EL<EWide> : ELTable<EWide, TabEnum<EWide, 0, 1, 300, 511>> {};
template<> struct EL<EFlags> : ELTable<EFlags, TabEnum<EFlags, 0, 1, 2, 3, 4, 5, 6, 7>> {};
template<> struct EL<EOne> : ELTable<EOne, TabEnum<EOne, 0>> {};
template<> struct EL<ETwo> : ELTable<ETwo, TabEnum<ETwo, 0, 1>> {};
template<> struct EL<EFar> : ELTable<EFar, TabEnum<EFar, 0, 5000>> {};
template<> struct EL<EHi> : ELTable<EHi, TabEnum<EHi, 0, 1, 512, 1000, 1023, 65535>> {};
template<> struct EL<EMid> : ELTable<EMid, TabEnum<EMid, 0, 256, 511>> {};
template<> struct EL<EUnscoped> : ELTable<EUnscoped, TabEnum<EUnscoped, 0, 1, 9, 15>> {};
template<> struct EL<EC16> : ELTable<EC16, TabEnum<EC16, 0, 17, 31>> {};
template<> struct EL<EBool> : ELTable<EBool, TabEnum<EBool, 0, 1>> {};
template<> struct EL<EBool0> : ELTable<EBool0, TabEnum<EBool0, 0, 1>> {};
template<> struct EL<std::byte> : ELTable<std::byte, TabEnum<std::byte, 0, 1, 127, 128, 254, 255>> {};
template<> struct EL<Padded> : ELBase {
    static constexpr int N = 8; static constexpr bool ordered = false;
    static Padded make(int v) { return Padded{v * 1000 - 1, short(v)}; }
    static int read(const Padded& x) { return x.x == x.y * 1000 - 1 && x.y >= 0 && x.y < N && x.PADDING == 0 ? x.y : int(BAD); }
    static int moved(int v, bool) { return v; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(v * 1000 - 1, short(v)); }
};
template<> struct EL<PaddedInt> : ELBase {
    static constexpr int N = 8; static constexpr bool ordered = false;
    static PaddedInt make(int v) { return PaddedInt{0, v * 3 - 1}; }
    static int read(const PaddedInt& x) { return (x.x + 1) % 3 == 0 && x.x >= -1 && x.x < 3 * N - 1 && x.PADDING == 0 ? (x.x + 1) / 3 : int(BAD); }
    static int moved(int v, bool) { return v; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(make(v)); }
};
template<> struct EL<PaddedWide> : ELBase {
    static constexpr int N = 8; static constexpr bool ordered = false;
    static PaddedWide make(int v) { PaddedWide p{}; p.x = short(v); p.y = -v; return p; }
    static int read(const PaddedWide& x) { return x.y == -x.x && x.x >= 0 && x.x < N && x.PADDING == 0 ? x.x : int(BAD); }
    static int moved(int v, bool) { return v; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(make(v)); }
};
template<> struct EL<PolyMulti> : ELBase {
    static constexpr int N = 5; static constexpr bool ordered = false;
    static PolyMulti make(int v) { return PolyMulti(v); }
    static int read(const PolyMulti& x) { const Two& t = x; return t.g() == x.a + 1 && x.o == 5 ? x.a : int(BAD); }
    static int moved(int v, bool) { return v; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(v); }
};
template<> struct EL<PolyTriv> : ELBase {
    static constexpr int N = 5; static constexpr bool ordered = false;
    static PolyTriv make(int v) { return PolyTriv(v); }
    static int read(const PolyTriv& x) { const PolyTriv* volatile p = &x; return p->g(); }
    static int moved(int v, bool) { return v; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(v); }
};
template<> struct EL<TupleLike> : ELBase {
    static constexpr int N = 8; static constexpr bool ordered = false;
    static TupleLike make(int v) { return TupleLike{short(-v), v % 2 == 1, v}; }
    static int read(const TupleLike& x) { return x.s == -x.i && x.i >= 0 && x.i < N && x.flag == (x.i % 2 == 1) ? x.i : int(BAD); }
    static int moved(int v, bool) { return v; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(short(-v), v % 2 == 1, v); }
};
template<> struct EL<Reflect> : ELBase {
    static constexpr int N = 8; static constexpr bool ordered = false;
    static Reflect make(int v) { return Reflect{v, v % 2 == 1, v * 0.5}; }
    static int read(const Reflect& x) { return x.a >= 0 && x.a < N && x.b == (x.a % 2 == 1) && x.c == x.a * 0.5 ? x.a : int(BAD); }
    static int moved(int v, bool) { return v; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(v, v % 2 == 1, v * 0.5); }
};
template<> struct EL<SentOpt> : ELBase {
    static constexpr int N = 8; static constexpr bool ordered = false;
    static SentOpt make(int v) { return SentOpt{v - 4}; }
    static int read(const SentOpt& x) { return x.v >= -4 && x.v < 4 ? x.v + 4 : int(BAD); }
    static int moved(int v, bool) { return v; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(v - 4); }
};
template<> struct EL<UserTr> : ELBase {
    static constexpr int N = 8; static constexpr bool ordered = false;
    static UserTr make(int v) { return UserTr{v, 0}; }
    static int read(const UserTr& x) { return x.level == 0 && x.v >= 0 && x.v < N ? x.v : int(BAD); }
    static int moved(int v, bool) { return v; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(UserTr{v, 0}); }
};
using Sent3 = opt::sentinel<int, -1, -2, 1000000>;
using SentF3 = opt::sentinel_f<int, IntCmp, IntSet, -1, -2, 77>;
using Memb = opt::member<WithMember, &WithMember::m>;
using Enf = opt::enforce<bool>;
template<class T> struct ELWrapInt : ELBase {
    static constexpr int N = 6; static constexpr bool ordered = true;
    static int num(int v) { return v == 0 ? -3 : v == 5 ? 76 : v; }
    static T make(int v) { return T(num(v)); }
    static int read(const T& x) { int i = x; for (int v = 0; v < N; ++v) if (num(v) == i) return v; return BAD; }
    static int moved(int v, bool) { return v; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(num(v)); }
};
template<> struct EL<Sent3> : ELWrapInt<Sent3> {};
template<> struct EL<SentF3> : ELWrapInt<SentF3> {};
template<> struct EL<Enf> : ELBase {
    static constexpr int N = 2;
    static Enf make(int v) { return Enf(v == 1); }
    static int read(const Enf& x) { unsigned char c; std::memcpy(&c, &x, 1); return c < 2 ? int(c) : int(BAD); }
    static int moved(int v, bool) { return v; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(v == 1); }
};
// standard library
inline const char* text(int v) {
    static const char* const t[] = {"", "a", "b", "fifteen chars..", "sixteen chars...", "zz a considerably longer string, surely on the heap"};
    return t[v];
}
template<class C> const C* ctext(int v) {
    if constexpr (std::is_same_v<C, char>) return text(v);
    else { static C b[6][80]; for (int i = 0; i < 6; ++i) if (!b[i][0]) for (int k = 0; text(i)[k]; ++k) b[i][k] = C(text(i)[k]); return b[v]; }
}
template<class C> struct EL<std::basic_string<C>> : ELBase {
    using T = std::basic_string<C>;
    static constexpr int N = 6; static constexpr bool ordered = true, has_src = true;
    static const C* src(int v) { return ctext<C>(v); }
    static T make(int v) { return T(ctext<C>(v)); }
    static int read(const T& x) { for (int v = 0; v < N; ++v) if (x == ctext<C>(v)) return v; return x.size() < 100 ? int(MOVED) : int(BAD); }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(ctext<C>(v)); }
};
template<class C> struct EL<std::basic_string_view<C>> : ELBase {
    using T = std::basic_string_view<C>;
    static constexpr int N = 9; static constexpr bool ordered = false;
    static const C* far(int v) { return reinterpret_cast<const C*>(v == 7 ? std::uintptr_t(-1) - 32186 : std::uintptr_t(-1) - 32185 + 255); }
    static T make(int v) { return v >= 7 ? T(far(v), 0) : v == 6 ? T() : T(ctext<C>(v)); }
    static int read(const T& x) { if (x.data() == nullptr) return x.empty() ? 6 : int(BAD); if (x.data() == far(7)) return 7; if (x.data() == far(8)) return 8; for (int v = 0; v < 6; ++v) if (x == ctext<C>(v)) return v; return BAD; }
    static int moved(int v, bool) { return v; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(make(v)); }
};
template<> struct EL<std::vector<bool>> : ELBase {
    static constexpr int N = 6; static constexpr bool ordered = false;
    static std::size_t len(int v) { return v == 5 ? 70 : std::size_t(v); }
    static std::vector<bool> make(int v) { std::vector<bool> x; for (std::size_t i = 0; i < len(v); ++i) x.push_back(i % 2 == 0); return x; }
    static int read(const std::vector<bool>& x) { for (std::size_t i = 0; i < x.size(); ++i) if (x[i] != (i % 2 == 0)) return BAD; for (int v = 0; v < N; ++v) if (len(v) == x.size()) return v; return BAD; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { auto x = make(v); return f(x.begin(), x.end()); }
};
template<> struct EL<std::vector<int>> : ELBase {
    static constexpr int N = 5; static constexpr bool ordered = true, has_il = true;
    template<class Fn> static void il(int v, Fn&& f) { std::initializer_list<int> l[] = {{}, {7}, {7, 8}, {7, 8, 9}, {7, 8, 9, 10}}; f(l[v], std::allocator<int>()); }
    static std::vector<int> make(int v) { std::vector<int> x; for (int i = 0; i < v; ++i) x.push_back(i + 7); if (v == 0) x.reserve(3); return x; }
    static int read(const std::vector<int>& x) { for (std::size_t i = 0; i < x.size(); ++i) if (i > 4 || x[i] != int(i) + 7) return BAD; return int(x.size()); }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { auto x = make(v); return f(x.begin(), x.end()); }
};
template<> struct EL<std::vector<std::string>> : ELBase {
    static constexpr int N = 5; static constexpr bool ordered = true;
    static std::vector<std::string> make(int v) { std::vector<std::string> x; for (int i = 0; i < v; ++i) x.push_back(text(5)); return x; }
    static int read(const std::vector<std::string>& x) { for (auto& s : x) if (s != text(5) && !s.empty()) return BAD; return int(x.size()); }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(std::size_t(v), text(5)); }
};
template<class X> struct ELUnique : ELBase {
    static constexpr int N = 5; static constexpr bool ordered = false;
    using T = std::unique_ptr<X>;
    static T make(int v) { return v == 0 ? T() : T(new X(v)); }
    static int look(const int& x) { return x; }
    static int look(const TF& x) { return x.look("a read"); }
    static int read(const T& x) { return x ? look(*x) : 0; }
    static int moved(int, bool) { return 0; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(make(v)); }
};
template<> struct EL<std::unique_ptr<int[]>> : ELBase {
    static constexpr int N = 5; static constexpr bool ordered = false;
    using T = std::unique_ptr<int[]>;
    static T make(int v) { if (!v) return T(); T p(new int[std::size_t(v)]); for (int i = 0; i < v; ++i) p[std::size_t(i)] = v; return p; }
    static int read(const T& x) { return x ? x[0] : 0; }
    static int moved(int, bool) { return 0; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(make(v)); }
};
template<> struct EL<std::unique_ptr<int>> : ELUnique<int> {};
template<> struct EL<std::unique_ptr<TF>> : ELUnique<TF> { static constexpr bool tracked = true; };
template<> struct EL<std::shared_ptr<int>> : ELBase {
    static constexpr int N = 5; static constexpr bool ordered = false;
    static std::shared_ptr<int> make(int v) { return v == 0 ? nullptr : std::make_shared<int>(v); }
    static int read(const std::shared_ptr<int>& x) { return x ? *x : 0; }
    static int moved(int, bool) { return 0; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(make(v)); }
};
// composites
// a value is a number in mixed radix, the last element being the least significant digit
template<class... A> struct Radix : ELBase {
    static constexpr int n = sizeof...(A);
    static constexpr int N = (1 * ... * EL<A>::N);
    static constexpr bool tracked = (EL<A>::tracked || ...), ordered = (EL<A>::ordered && ...);
    static constexpr int base(int i) { constexpr int b[] = {EL<A>::N...}; return b[i]; }
    static constexpr int digit(int v, int i) { for (int k = n - 1; k > i; --k) v /= base(k); return v % base(i); }
    template<class T> static T elem(int v, int i) { return EL<T>::make(digit(v, i)); }
    static int join(const int* d) { int r = 0; for (int i = 0; i < n; ++i) if (d[i] == int(BAD)) return BAD; for (int i = 0; i < n; ++i) { if (special(d[i])) return d[i]; r = r * base(i) + d[i]; } return r; }
    static int moved(int v, bool as) { if (special(v)) return v; int i = 0; int d[] = {(void(i), EL<A>::moved(digit(v, i++), as))...}; for (int x : d) if (special(x)) return ANY; return join(d); }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return args2(v, f, std::index_sequence_for<A...>{}); }
    template<class Fn, std::size_t... I> static decltype(auto) args2(int v, Fn& f, std::index_sequence<I...>) { return f(elem<A>(v, int(I))...); }
};
template<class A, class B> struct EL<std::pair<A, B>> : Radix<A, B> {
    using R = Radix<A, B>;
    static std::pair<A, B> make(int v) { return std::pair<A, B>(R::template elem<A>(v, 0), R::template elem<B>(v, 1)); }
    static int read(const std::pair<A, B>& x) { int d[] = {EL<A>::read(x.first), EL<B>::read(x.second)}; return R::join(d); }
};
template<class... A> struct EL<std::tuple<A...>> : Radix<A...> {
    using R = Radix<A...>;
    template<std::size_t... I> static std::tuple<A...> make2(int v, std::index_sequence<I...>) { return std::tuple<A...>(R::template elem<A>(v, int(I))...); }
    static std::tuple<A...> make(int v) { return make2(v, std::index_sequence_for<A...>{}); }
    static int read(const std::tuple<A...>& x) { return std::apply([](const A&... y) { int d[] = {EL<A>::read(y)...}; return R::join(d); }, x); }
};
template<class A, std::size_t> using Same = A;
template<class A, class> struct ArrRadix;
template<class A, std::size_t... I> struct ArrRadix<A, std::index_sequence<I...>> : Radix<Same<A, I>...> {
    using R = Radix<Same<A, I>...>; using T = std::array<A, sizeof...(I)>;
    static T make(int v) { return T{{R::template elem<A>(v, int(I))...}}; }
    static int read(const T& x) { int d[] = {EL<A>::read(x[I])...}; return R::join(d); }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(make(v)); }
};
template<class A, std::size_t K> struct EL<std::array<A, K>> : ArrRadix<A, std::make_index_sequence<K>> {};
template<> struct EL<Memb> : ELBase {
    static constexpr int N = 6; static constexpr bool ordered = false;
    static Memb make(int v) { return Memb(v, v % 2 == 1); }
    static int read(const Memb& x) { const WithMember& w = x; return w.m == (w.x % 2 == 1) && w.x >= 0 && w.x < N ? w.x : int(BAD); }
    static int moved(int v, bool) { return v; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(v, v % 2 == 1); }
};
// nested options: 0 is the empty inner option
template<class U> struct EL<opt::option<U>> : ELBase {
    static constexpr int N = EL<U>::N + 1;
    static constexpr bool tracked = EL<U>::tracked, ordered = EL<U>::ordered;
    static opt::option<U> make(int v) { if (v == 0) return opt::option<U>(); return opt::option<U>(EL<U>::make(v - 1)); }
    static int read(const opt::option<U>& x) { if (!x.has_value()) return 0; int r = EL<U>::read(*x); return special(r) ? r : r + 1; }
    static int moved(int v, bool as) { if (v == 0 || special(v)) return v; int r = EL<U>::moved(v - 1, as); if (as && r != EL<U>::moved(v - 1, false)) return ANY; return special(r) ? r : r + 1; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { if (v == 0) return f(opt::none); return f(make(v)); }
};
template<class R_> struct EL<opt::option<R_&>> : ELBase { // a reference inside an option
    static constexpr int N = 6; static constexpr bool ordered = false, comparable = false;
    static opt::option<R_&> make(int v) { if (v == 0) return opt::option<R_&>(); return opt::option<R_&>(arena[v - 1]); }
    static int read(const opt::option<R_&>& x) { if (!x.has_value()) return 0; for (int v = 1; v < N; ++v) if (x.ptr_or_null() == &arena[v - 1]) return v; return BAD; }
    static int moved(int v, bool) { return v; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { if (v == 0) return f(opt::none); return f(arena[v - 1]); }
};
} // namespace sim
