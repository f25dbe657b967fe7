#pragma once
// Containers and smart pointers whose allocators, deleters, traits and elements are not the default ones
#include "elems.hpp"
#include <deque>
#include <map>
#include <memory_resource>
namespace sim {
template<class U> struct StateAlloc { // carries a number that comes before the pointers
    using value_type = U; using propagate_on_container_copy_assignment = std::true_type; using propagate_on_container_move_assignment = std::true_type; using propagate_on_container_swap = std::true_type;
    u64 id = 0xA110CA7E; StateAlloc() = default; template<class V> StateAlloc(const StateAlloc<V>& o) noexcept : id(o.id) {}
    U* allocate(std::size_t n) { return std::allocator<U>().allocate(n); }
    void deallocate(U* p, std::size_t n) { SIM_CHECK(O_LIFE | O_CRASH, id == 0xA110CA7E, "allocator-broken", "an allocator has the state %llx", (unsigned long long)id); std::allocator<U>().deallocate(p, n); }
    friend bool operator==(const StateAlloc& a, const StateAlloc& b) { return a.id == b.id; } friend bool operator!=(const StateAlloc& a, const StateAlloc& b) { return a.id != b.id; }
};
template<class U> struct EmptyAlloc { // empty, not the standard one
    using value_type = U; EmptyAlloc() = default; template<class V> EmptyAlloc(const EmptyAlloc<V>&) noexcept {}
    U* allocate(std::size_t n) { return std::allocator<U>().allocate(n); } void deallocate(U* p, std::size_t n) { std::allocator<U>().deallocate(p, n); }
    friend bool operator==(EmptyAlloc, EmptyAlloc) { return true; } friend bool operator!=(EmptyAlloc, EmptyAlloc) { return false; }
};
struct CiTraits : std::char_traits<char> {};
struct Del { void operator()(int* p) const { delete p; } };
struct StateDel { u64 id = 0xDE1; void operator()(int* p) const { SIM_CHECK(O_LIFE | O_CRASH, id == 0xDE1, "deleter-broken", "a deleter has the state %llx", (unsigned long long)id); delete p; } };
template<class T, class C> struct ELText : ELBase {
    static constexpr int N = 6; static constexpr bool ordered = true, has_src = true;
    static const C* src(int v) { return ctext<C>(v); }
    static T make(int v) { return T(ctext<C>(v)); }
    static int read(const T& x) { for (int v = 0; v < N; ++v) if (x == ctext<C>(v)) return v; return x.size() < 100 ? int(MOVED) : int(BAD); }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(ctext<C>(v)); }
};
using PmrString = std::pmr::string; using CiString = std::basic_string<char, CiTraits>; using EaString = std::basic_string<char, std::char_traits<char>, EmptyAlloc<char>>; using SaString = std::basic_string<char, std::char_traits<char>, StateAlloc<char>>;
template<> struct EL<PmrString> : ELText<PmrString, char> {};
template<> struct EL<CiString> : ELText<CiString, char> {};
template<> struct EL<EaString> : ELText<EaString, char> {};
template<> struct EL<SaString> : ELText<SaString, char> {};
// a sequence of v elements that know their place
template<class T, class X> struct ELSeq : ELBase {
    static constexpr int N = 5; static constexpr bool ordered = false; static constexpr bool tracked = EL<X>::tracked; static constexpr bool comparable = EL<X>::comparable;
    static int dig(std::size_t i) { return int(i + 1) % EL<X>::N; }
    static void room(...) {} template<class C> static auto room(C* c) -> decltype(c->reserve(5), void()) { c->reserve(5); }
    static T make(int v) { T x; if (v) room(&x); for (int i = 0; i < v; ++i) x.push_back(EL<X>::make(dig(std::size_t(i)))); return x; }
    static int read(const T& x) { std::size_t i = 0; bool sp = false; for (auto& e : x) { int r = EL<X>::read(e); if (special(r) && r != BAD) sp = true; else if (r != dig(i)) return BAD; ++i; } return sp ? int(MOVED) : i < 5 ? int(i) : int(BAD); }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(make(v)); }
};
using SaVec = std::vector<int, StateAlloc<int>>; using EaVec = std::vector<int, EmptyAlloc<int>>; using PmrVec = std::pmr::vector<int>;
template<> struct EL<SaVec> : ELSeq<SaVec, int> {}; template<> struct EL<EaVec> : ELSeq<EaVec, int> {}; template<> struct EL<PmrVec> : ELSeq<PmrVec, int> {};
template<> struct EL<std::vector<TF>> : ELSeq<std::vector<TF>, TF> {};
template<> struct EL<std::vector<opt::option<bool>>> : ELSeq<std::vector<opt::option<bool>>, opt::option<bool>> {};
template<> struct EL<std::deque<int>> : ELSeq<std::deque<int>, int> {};
template<class T> struct ELOwner : ELBase {
    static constexpr int N = 5; static constexpr bool ordered = false;
    static T make(int v) { return v == 0 ? T() : T(new int(v)); }
    static int read(const T& x) { return x ? *x : 0; }
    static int moved(int, bool) { return 0; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(make(v)); }
};
using DelPtr = std::unique_ptr<int, Del>; using StatePtr = std::unique_ptr<int, StateDel>; using FnPtr = std::unique_ptr<int, void (*)(int*)>;
template<> struct EL<DelPtr> : ELOwner<DelPtr> {}; template<> struct EL<StatePtr> : ELOwner<StatePtr> {};
inline void fn_del(int* p) { delete p; }
template<> struct EL<FnPtr> : ELOwner<FnPtr> { static FnPtr make(int v) { return FnPtr(v ? new int(v) : nullptr, &fn_del); } template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(v ? new int(v) : nullptr, &fn_del); } };
template<> struct EL<std::map<int, int>> : ELBase {
    static constexpr int N = 5; static constexpr bool ordered = false; using T = std::map<int, int>;
    static T make(int v) { T x; for (int i = 0; i < v; ++i) x[i] = i + 3; return x; }
    static int read(const T& x) { int i = 0; for (auto& e : x) { if (e.first != i || e.second != i + 3) return BAD; ++i; } return i < N ? i : int(BAD); }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(make(v)); }
};
} // namespace sim
// composites of references, const elements, elements with members of get, virtual bases
namespace sim {
template<> struct EL<const int&> : ELBase { // an element that refers to an object of the program
    static constexpr int N = 6; static constexpr bool ordered = false, comparable = false;
    static const int& make(int v) { return arena[v]; }
    static int read(const int& x) { for (int v = 0; v < N; ++v) if (&x == &arena[v]) return v; return BAD; }
    static int moved(int v, bool) { return v; }
};
template<class T> struct ELConst : EL<T> { static int moved(int v, bool) { return v; } };
template<> struct EL<const bool> : ELConst<bool> {}; template<> struct EL<const float> : ELConst<float> {}; template<> struct EL<const double> : ELConst<double> {}; template<> struct EL<const int> : ELConst<int> {};
template<> struct EL<int* const> : ELConst<int*> {}; template<> struct EL<const TN> : ELConst<TN> {}; template<> struct EL<const std::pair<int*, int>> : ELConst<std::pair<int*, int>> {};
template<> struct EL<const opt::option<const bool>> : ELConst<opt::option<const bool>> {};
template<> struct EL<const TF> : ELConst<TF> {};
struct GetMember { bool flag; int i; template<std::size_t I> auto& get() { if constexpr (I == 0) return i; else return flag; } template<std::size_t I> auto& get() const { if constexpr (I == 0) return i; else return flag; } };
template<> struct EL<GetMember> : ELBase {
    static constexpr int N = 8; static constexpr bool ordered = false;
    static GetMember make(int v) { return GetMember{v % 2 == 1, v}; }
    static int read(const GetMember& x) { return x.i >= 0 && x.i < N && x.flag == (x.i % 2 == 1) ? x.i : int(BAD); }
    static int moved(int v, bool) { return v; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(v % 2 == 1, v); }
};
struct VBase { int x = 1; virtual ~VBase() {} };
struct VLeft : virtual VBase { int l = 2; }; struct VRight : virtual VBase { int r = 3; };
struct Diamond : VLeft, VRight {
    Tr<12u << 24> b; explicit Diamond(int v) : b(v) { x = v + 40; }
    Diamond(const Diamond& o) : VBase(o), VLeft(o), VRight(o), b(o.b) {} Diamond(Diamond&& o) : VBase(o), VLeft(o), VRight(o), b(static_cast<Tr<12u << 24>&&>(o.b)) {}
    Diamond& operator=(const Diamond& o) { b = o.b; x = o.x; return *this; } Diamond& operator=(Diamond&& o) { b = static_cast<Tr<12u << 24>&&>(o.b); x = o.x; return *this; }
};
template<> struct EL<Diamond> : ELBase {
    static constexpr int N = 6; static constexpr bool tracked = true, comparable = false;
    static Diamond make(int v) { return Diamond(v); }
    static int read(const Diamond& d) { const VRight& r = d; const VBase& b = r; return b.x < 40 || b.x >= 46 || r.r != 3 || d.l != 2 ? int(BAD) : d.b.look("a read"); }
    static int moved(int, bool) { return MOVED; }
    template<class Fn> static decltype(auto) args(int v, Fn&& f) { return f(v); }
};
} // namespace sim
template<> struct std::tuple_size<sim::GetMember> : std::integral_constant<std::size_t, 2> {};
template<std::size_t I> struct std::tuple_element<I, sim::GetMember> { using type = std::conditional_t<I == 0, int, bool>; };
