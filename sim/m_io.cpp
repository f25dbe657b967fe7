// opt::io: writing and reading options through streams that fail. Every operation is repeated with the plain value
// (or the none case) on a twin stream with the same fault, and the two streams must stay in the same state.
#include "mini.hpp"
#include <iomanip>
#include <istream>
#include <ostream>
#include <streambuf>
namespace sim {
// a bounded in-memory device; the simulator decides at which character it fails, and how
template<class Ch> struct SimBufT final : std::basic_streambuf<Ch> {
    using B = std::basic_streambuf<Ch>; using int_type = typename B::int_type; using traits_type = typename B::traits_type; using B::gptr; using B::egptr; using B::setg;
    std::basic_string<Ch> out, in; std::size_t ip = 0, cap = 48; Ch ch = 0; // a one-character get area
    SimBufT() { out.reserve(64); }
    bool fail() { return point(PT_STREAM); }
    int_type act() { if (fault_mode() == 2) throw SimExc{7}; return traits_type::eof(); }
    int_type overflow(int_type c) override {
        if (fail()) return act();
        if (out.size() >= cap) return traits_type::eof(); // the device is full
        if (!traits_type::eq_int_type(c, traits_type::eof())) out.push_back(Ch(c));
        return traits_type::not_eof(c);
    }
    int_type underflow() override {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        if (fail()) return act();
        if (ip >= in.size()) return traits_type::eof();
        ch = in[ip++]; setg(&ch, &ch, &ch + 1); return traits_type::to_int_type(ch);
    }
};
using SimBuf = SimBufT<char>;
struct Msg { int v; }; // a user type whose inserter and extractor fail
template<class S> S& operator<<(S& s, const Msg& m) { if (point(PT_CONV)) raise(); s << '<' << m.v; if (point(PT_CONV)) raise(); s << '>'; return s; }
inline std::istream& operator>>(std::istream& s, Msg& m) { int x = 0; if (point(PT_CONV)) raise(); if (s >> x) m.v = x % 100; return s; }
// counts how it is written: as an object that may or may not be changed
struct Mut { int n = 0; };
inline std::ostream& operator<<(std::ostream& s, Mut& m) { if (point(PT_CONV)) raise(); ++m.n; return s << 'm' << m.n; }
inline std::ostream& operator<<(std::ostream& s, const Mut& m) { if (point(PT_CONV)) raise(); return s << 'c' << m.n; }
// a stream that is no std::ostream
struct Rec { std::string log; int ops = 0; };
inline Rec& operator<<(Rec& r, const int& x) { ++r.ops; if (point(PT_STREAM)) raise(); r.log += 'i' + std::to_string(x); return r; }
inline Rec& operator<<(Rec& r, int&& x) = delete;
inline Rec& operator<<(Rec& r, const char* x) { ++r.ops; if (point(PT_STREAM)) raise(); r.log += 's'; r.log += x; return r; }
inline Rec& operator>>(Rec& r, int& x) { ++r.ops; if (point(PT_STREAM)) raise(); x = x / 2 + 1; return r; }

struct IoWorld final : MiniWorld<IoWorld> {
    struct Side { SimBuf b; std::iostream s{&b}; };
    struct WSide { SimBufT<wchar_t> b; std::wiostream s{&b}; };
    struct T {
        WSide wreal, wtwin; opt::option<std::wstring> ws; opt::option<wchar_t> wc; opt::option<const std::string&> sr; opt::option<int&> ir; std::string outside = "outside"; int iout = 5; opt::option<Mut> mu;
        Side real, twin; opt::option<int> i; opt::option<std::string> st; opt::option<Msg> m; opt::option<double> d; opt::option<char> c; Rec rec, rtwin;
        std::string text;
    };
    T* ts[3] = {};
    ~IoWorld() override { for (T* t : ts) delete t; }
    void init(int t, const Plan& p) {
        T& s = *(ts[t] = new T);
        static const char* const inputs[] = {"", "12 -7 9999999999999 x 3", "word another_word 5", "1.5 1e400 nan -0", "   ", "7", "a b c d e f"};
        const char* in = inputs[p.cfg[0] % 7]; s.real.b.in = s.twin.b.in = in; s.text = in;
        auto ex = std::ios::iostate(p.cfg[1] % 3 == 0 ? std::ios::badbit : p.cfg[1] % 3 == 1 ? std::ios::failbit | std::ios::badbit : std::ios::goodbit);
        s.real.s.exceptions(ex); s.twin.s.exceptions(ex); s.wreal.s.exceptions(ex); s.wtwin.s.exceptions(ex); for (const char* q = in; *q; ++q) { s.wreal.b.in.push_back(wchar_t(u8(*q))); s.wtwin.b.in.push_back(wchar_t(u8(*q))); }
        if (p.cfg[2] & 32) s.ws = std::wstring(ctext<wchar_t>(int(p.cfg[3] % 6))); if (p.cfg[2] & 64) s.wc = wchar_t(0x400 + p.cfg[3] % 26); if (p.cfg[2] & 128) s.sr.emplace(s.outside); if (p.cfg[2] & 256) s.ir.emplace(s.iout); if (p.cfg[2] & 512) s.mu.emplace();
        if (p.cfg[2] & 1) s.i = int(p.cfg[2]) - 30000; if (p.cfg[2] & 2) s.st = std::string(text(int(p.cfg[3] % 6))); if (p.cfg[2] & 4) s.m = Msg{int(p.cfg[3] % 90)}; if (p.cfg[2] & 8) s.d = double(p.cfg[3]) / 7; if (p.cfg[2] & 16) s.c = char('a' + p.cfg[3] % 26);
    }
    u64 state_key(int t) const { const T& s = *ts[t]; return u64(s.real.s.rdstate()) * 32 + u64(s.i.has_value()) + 2u * s.st.has_value() + 4u * s.m.has_value() + 8u * s.d.has_value() + 16u * s.c.has_value(); }
    void check(int t) {
        T& s = *ts[t];
        SIM_CHECK(O_STREAM, s.real.b.out == s.twin.b.out, "stream-output", "io wrote \"%s\", the plain value \"%s\"", s.real.b.out.c_str(), s.twin.b.out.c_str());
        SIM_CHECK(O_STREAM, s.real.s.rdstate() == s.twin.s.rdstate(), "stream-state", "io left the stream in state %d, the plain value in %d", int(s.real.s.rdstate()), int(s.twin.s.rdstate()));
        SIM_CHECK(O_STREAM, s.real.s.width() == s.twin.s.width() && s.real.s.flags() == s.twin.s.flags() && s.real.s.precision() == s.twin.s.precision() && s.real.s.fill() == s.twin.s.fill(), "stream-format", "io left other formatting behind than the plain value (width %d, %d)", int(s.real.s.width()), int(s.twin.s.width()));
        SIM_CHECK(O_STREAM, s.real.b.ip == s.twin.b.ip, "stream-input", "io consumed %zu characters, the plain value %zu", s.real.b.ip, s.twin.b.ip);
        SIM_CHECK(O_STREAM, s.wreal.b.out == s.wtwin.b.out && s.wreal.b.ip == s.wtwin.b.ip && s.wreal.s.rdstate() == s.wtwin.s.rdstate() && s.wreal.s.width() == s.wtwin.s.width() && s.wreal.s.flags() == s.wtwin.s.flags(), "stream-wide", "io and the plain value did different things to a wide stream (state %d, %d)", int(s.wreal.s.rdstate()), int(s.wtwin.s.rdstate()));
        for (wchar_t ch : s.wreal.b.out) log_event(u64(ch));
        SIM_CHECK(O_STREAM, s.rec.log == s.rtwin.log && s.rec.ops == s.rtwin.ops, "stream-custom", "io used a stream that is not of the standard library differently");
        log_event(u64(s.real.s.rdstate())); for (char ch : s.real.b.out) log_event(u64(u8(ch)));
    }
    // what happened, as far as the caller sees it
    template<class F> static int outcome(F&& f) {
        try { f(); return 0; }
        catch (const std::ios_base::failure&) { return 1; } catch (const SimExc&) { return 2; } catch (const SimErr&) { return 3; } catch (int) { return 4; } catch (const BigExc&) { return 5; } catch (const std::bad_alloc&) { return 6; } catch (...) { return 7; }
    }
    // Runs f on the real stream, then g on the twin, with the same fault at the same place.
    template<class F, class G> static void both(T& s, const Call& c, const char* what, F&& f, G&& g) {
        int a, b;
        { Arm x; a = outcome(f); }
        Ctx save = *cur; cur->fired = false; cur->hits = 0; // the same fault, at the same point of the same sequence
        { Arm x; b = outcome(g); }
        const u64 pts = cur->points; *cur = save; cur->points = pts;
        SIM_CHECK(O_EXC | O_STREAM, a == b, "stream-outcome", "%s ends differently from the plain operation (%d, %d)", what, a, b);
        log_event(u64(a) + 77);
        (void)c;
    }
    template<class V, class N> static void write1(T& s, const Call& c, opt::option<V>& o, N none) {
        std::ostream* ret = nullptr; const bool e = o.has_value(); V* before = o.ptr_or_null(); V copy{}; if (e) copy = *o;
        switch (c.a(2) % 3) {
        case 0: both(s, c, "io(x)", [&] { ret = &(static_cast<std::ostream&>(s.real.s) << opt::io(c.a(3) % 2 ? o : const_cast<opt::option<V>&>(std::as_const(o)))); }, [&] { if (e) static_cast<std::ostream&>(s.twin.s) << *o; }); break;
        case 1: both(s, c, "io(const x)", [&] { ret = &(static_cast<std::ostream&>(s.real.s) << opt::io(std::as_const(o))); }, [&] { if (e) static_cast<std::ostream&>(s.twin.s) << *std::as_const(o); }); break;
        default: both(s, c, "io(x, none)", [&] { const auto& n = none; ret = &(static_cast<std::ostream&>(s.real.s) << opt::io(std::as_const(o), n)); }, [&] { if (e) static_cast<std::ostream&>(s.twin.s) << *o; else static_cast<std::ostream&>(s.twin.s) << none; });
        }
        SIM_CHECK(O_RESULT, !ret || ret == &s.real.s, "stream-returned", "operator<< did not return its stream");
        SIM_CHECK(O_OTHER, o.has_value() == e && o.ptr_or_null() == before && (!e || std::memcmp(&copy, before, std::is_trivially_copyable_v<V> ? sizeof(V) : 0) == 0), "stream-changed", "writing changed the option");
    }
    template<class V> static void read1(T& s, const Call& c, opt::option<V>& o, V fresh) {
        std::istream* ret = nullptr; const bool e = o.has_value(); V a = fresh, b = fresh, tw = e ? *o : fresh;
        both(s, c, "reading io(x, none)", [&] { ret = &(static_cast<std::istream&>(s.real.s) >> opt::io(o, a)); }, [&] { static_cast<std::istream&>(s.twin.s) >> (e ? tw : b); });
        SIM_CHECK(O_RESULT, !ret || ret == &s.real.s, "stream-returned", "operator>> did not return its stream");
        SIM_CHECK(O_STATE, o.has_value() == e, "read-state", "reading into an %s option made it %s", e ? "engaged" : "empty", e ? "empty" : "engaged");
        if (foreign()) return;
        SIM_CHECK(O_VALUE, !e || same(*o, tw), "read-value", "the engaged option holds another value than was read");
        SIM_CHECK(O_VALUE, same(a, b), "read-none", "the none case holds another value than was read");
    }
    static bool same(const Msg& a, const Msg& b) { return a.v == b.v; }
    template<class V> static bool same(const V& a, const V& b) { return a == b || (a != a && b != b); }
    static const std::vector<Op>& table() {
        static const std::vector<Op> t = {
            {{"write_int", G_SPECIAL, 4}, [](IoWorld& w, const Call& c) { T& s = *w.ts[c.t]; write1(s, c, s.i, "none"); }},
            {{"write_string", G_SPECIAL, 4}, [](IoWorld& w, const Call& c) { T& s = *w.ts[c.t]; write1(s, c, s.st, 'N'); }},
            {{"write_message", G_SPECIAL, 4}, [](IoWorld& w, const Call& c) { T& s = *w.ts[c.t]; write1(s, c, s.m, Msg{5}); }},
            {{"write_double", G_SPECIAL, 3}, [](IoWorld& w, const Call& c) { T& s = *w.ts[c.t]; write1(s, c, s.d, -1); }},
            {{"write_char", G_SPECIAL, 2}, [](IoWorld& w, const Call& c) { T& s = *w.ts[c.t]; write1(s, c, s.c, 2.5); }},
            {{"read_int", G_SPECIAL, 4}, [](IoWorld& w, const Call& c) { T& s = *w.ts[c.t]; read1(s, c, s.i, -5); }},
            {{"read_string", G_SPECIAL, 4}, [](IoWorld& w, const Call& c) { T& s = *w.ts[c.t]; read1(s, c, s.st, std::string("fresh")); }},
            {{"read_message", G_SPECIAL, 3}, [](IoWorld& w, const Call& c) { T& s = *w.ts[c.t]; read1(s, c, s.m, Msg{99}); }},
            {{"read_double", G_SPECIAL, 2}, [](IoWorld& w, const Call& c) { T& s = *w.ts[c.t]; read1(s, c, s.d, 0.25); }},
            {{"read_char", G_SPECIAL, 2}, [](IoWorld& w, const Call& c) { T& s = *w.ts[c.t]; read1(s, c, s.c, '?'); }},
            {{"custom_stream", G_SPECIAL, 4}, [](IoWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; const bool e = s.i.has_value(); Rec* ret = nullptr; int n = 3, n2 = 3, v = e ? *s.i : 0;
                switch (c.a(2) % 4) {
                case 0: both(s, c, "io(x) on another stream", [&] { ret = &(s.rec << opt::io(s.i)); }, [&] { if (e) s.rtwin << std::as_const(v); }); break;
                case 1: both(s, c, "io(x, none) on another stream", [&] { ret = &(s.rec << opt::io(std::as_const(s.i), "none")); }, [&] { if (e) s.rtwin << std::as_const(v); else s.rtwin << "none"; }); break;
                case 2: both(s, c, "io(x, none) on another stream", [&] { ret = &(s.rec << opt::io(s.i, n)); }, [&] { s.rtwin << std::as_const(e ? v : n2); }); break;
                default: both(s, c, "reading io(x, none) from another stream", [&] { ret = &(s.rec >> opt::io(s.i, n)); }, [&] { s.rtwin >> (e ? v : n2); });
                }
                SIM_CHECK(O_RESULT, !ret || ret == &s.rec, "stream-returned", "the operator did not return its stream");
                SIM_CHECK(O_STATE | O_VALUE, s.i.has_value() == e && (!e || *s.i == v) && n == n2, "stream-custom", "another value than expected after a custom stream");
            }},
            {{"wide", G_SPECIAL, 5}, [](IoWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; std::wios* ret = nullptr; auto &R = s.wreal.s, &Z = s.wtwin.s; const bool a = s.ws.has_value(), b = s.wc.has_value(), e = s.i.has_value();
                std::wstring n = L"none", n2 = n, tw = a ? *s.ws : n; int k = 8, k2 = 8, tk = e ? *s.i : 0; n.reserve(90); n2.reserve(90); tw.reserve(90); if (a) s.ws->reserve(90);
                switch (c.a(2) % 7) {
                case 0: both(s, c, "io(x) on a wide stream", [&] { ret = &(static_cast<std::wostream&>(R) << opt::io(s.ws)); }, [&] { if (a) static_cast<std::wostream&>(Z) << *s.ws; }); break;
                case 1: both(s, c, "io(x, none) on a wide stream", [&] { ret = &(static_cast<std::wostream&>(R) << opt::io(std::as_const(s.ws), L"-")); }, [&] { if (a) static_cast<std::wostream&>(Z) << *s.ws; else static_cast<std::wostream&>(Z) << L"-"; }); break;
                case 2: both(s, c, "io(x, none) on a wide stream", [&] { ret = &(static_cast<std::wostream&>(R) << opt::io(s.wc, n)); }, [&] { if (b) static_cast<std::wostream&>(Z) << *s.wc; else static_cast<std::wostream&>(Z) << n2; }); break;
                case 3: both(s, c, "io(x) on a wide stream", [&] { ret = &(static_cast<std::wostream&>(R) << opt::io(std::as_const(s.i))); }, [&] { if (e) static_cast<std::wostream&>(Z) << *s.i; }); break;
                case 4: both(s, c, "reading io(x, none) from a wide stream", [&] { ret = &(static_cast<std::wistream&>(R) >> opt::io(s.ws, n)); }, [&] { static_cast<std::wistream&>(Z) >> (a ? tw : n2); }); SIM_CHECK(O_STATE | O_VALUE, s.ws.has_value() == a && (!a || *s.ws == tw) && n == n2, "read-value", "another value than was read from a wide stream"); break;
                case 5: both(s, c, "reading io(x, none) from a wide stream", [&] { ret = &(static_cast<std::wistream&>(R) >> opt::io(s.i, k)); }, [&] { static_cast<std::wistream&>(Z) >> (e ? tk : k2); }); SIM_CHECK(O_STATE | O_VALUE, s.i.has_value() == e && (!e || *s.i == tk) && k == k2, "read-value", "another value than was read from a wide stream"); break;
                default: for (WSide* x : {&s.wreal, &s.wtwin}) { if (c.a(3) % 3 == 0) { x->s.clear(); x->b.out.clear(); } else if (c.a(3) % 3 == 1) x->s << std::setw(c.a(4) % 9) << std::left; else x->s << std::hex << std::setfill(L'~') << std::right; }
                }
                SIM_CHECK(O_RESULT, !ret || ret == static_cast<std::wios*>(&R), "stream-returned", "the operator did not return its stream");
            }},
            {{"references", G_SPECIAL, 3}, [](IoWorld& w, const Call& c) { // options that refer to objects of the program
                T& s = *w.ts[c.t]; const bool a = s.sr.has_value(), b = s.ir.has_value(); int n = 3, n2 = 3, ti = s.iout; std::ostream& R = s.real.s; std::ostream& Z = s.twin.s;
                switch (c.a(2) % 5) {
                case 0: both(s, c, "io(reference)", [&] { R << opt::io(s.sr); }, [&] { if (a) Z << s.outside; }); break;
                case 1: both(s, c, "io(reference, none)", [&] { R << opt::io(std::as_const(s.sr), 'n'); }, [&] { if (a) Z << s.outside; else Z << 'n'; }); break;
                case 2: both(s, c, "io(reference, none)", [&] { R << opt::io(std::as_const(s.ir), "none"); }, [&] { if (b) Z << s.iout; else Z << "none"; }); break;
                case 3: both(s, c, "reading io(reference, none)", [&] { static_cast<std::istream&>(s.real.s) >> opt::io(s.ir, n); }, [&] { static_cast<std::istream&>(s.twin.s) >> (b ? ti : n2); }); SIM_CHECK(O_VALUE, s.iout == ti && n == n2, "read-value", "reading through an option of a reference gave %d, not %d", s.iout, ti); s.iout %= 1000; break;
                default: if (c.a(3) % 2) s.sr.reset(); else s.sr.emplace(s.outside); if (c.a(3) % 3) s.ir.emplace(s.iout); else s.ir.reset();
                }
                SIM_CHECK(O_OTHER, s.outside == "outside" && (!s.sr.has_value() || s.sr.ptr_or_null() == &s.outside) && (!s.ir.has_value() || s.ir.ptr_or_null() == &s.iout), "stream-changed", "writing changed what an option refers to");
            }},
            {{"mutable", G_SPECIAL, 3}, [](IoWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; if (c.a(3) % 4 == 0) { if (s.mu) s.mu.reset(); else s.mu.emplace(); return; }
                Mut tw = s.mu ? *s.mu : Mut(), n, n2; std::ostream& R = s.real.s; std::ostream& Z = s.twin.s; const bool e = s.mu.has_value();
                switch (c.a(2) % 4) {
                case 0: both(s, c, "io(x)", [&] { R << opt::io(s.mu); }, [&] { if (e) Z << tw; }); break;
                case 1: both(s, c, "io(const x)", [&] { R << opt::io(std::as_const(s.mu)); }, [&] { if (e) Z << std::as_const(tw); }); break;
                case 2: both(s, c, "io(x, none)", [&] { R << opt::io(s.mu, n); }, [&] { Z << (e ? tw : n2); }); break;
                default: both(s, c, "io(const x, const none)", [&] { R << opt::io(std::as_const(s.mu), std::as_const(n)); }, [&] { Z << std::as_const(e ? tw : n2); });
                }
                SIM_CHECK(O_VALUE, s.mu.has_value() == e && (!e || s.mu->n == tw.n) && n.n == n2.n, "stream-changed", "io wrote another object, or as another kind of object, than the plain operation");
            }},
            {{"kept", G_SPECIAL, 3}, [](IoWorld& w, const Call& c) { // what io returns refers to the option: it shows what the option is when it is used
                T& s = *w.ts[c.t]; std::ostream& R = s.real.s; std::ostream& Z = s.twin.s; int none = c.a(3) % 50; auto h1 = opt::io(s.i); auto h2 = opt::io(std::as_const(s.i)); auto h3 = opt::io(s.i, none); auto h4 = opt::io(std::as_const(s.i), std::as_const(none));
                if (c.a(4) % 2) s.i = c.a(4) % 90; else s.i.reset(); none += 100; const bool e = s.i.has_value();
                switch (c.a(2) % 5) {
                case 0: both(s, c, "a kept io(x)", [&] { R << h1; }, [&] { if (e) Z << *s.i; }); break;
                case 1: both(s, c, "a kept io(const x)", [&] { R << h2 << h2; }, [&] { if (e) Z << *s.i << *s.i; }); break;
                case 2: both(s, c, "a kept io(x, none)", [&] { R << h3; }, [&] { Z << (e ? *s.i : none); }); break;
                case 3: both(s, c, "a kept io(const x, none)", [&] { R << h4 << h3; }, [&] { Z << (e ? *s.i : none) << (e ? *s.i : none); }); break;
                default: { int ti = e ? *s.i : none, tn = none; both(s, c, "reading a kept io(x, none)", [&] { static_cast<std::istream&>(s.real.s) >> h3; }, [&] { static_cast<std::istream&>(s.twin.s) >> ti; }); if (!e) tn = ti;
                    SIM_CHECK(O_STATE | O_VALUE, s.i.has_value() == e && (!e || *s.i == ti) && none == tn, "read-value", "another value than was read"); }
                }
            }},
            {{"chain", G_SPECIAL, 3}, [](IoWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; const bool e = s.i.has_value(), f = s.st.has_value();
                both(s, c, "a chain of insertions", [&] { static_cast<std::ostream&>(s.real.s) << opt::io(s.i) << ',' << opt::io(std::as_const(s.st), "-") << opt::io(s.m, Msg{1} = Msg{2}) << ';'; },
                     [&] { std::ostream& o = s.twin.s; if (e) o << *s.i; o << ','; if (f) o << *s.st; else o << "-"; if (s.m) o << *s.m; else o << Msg{2}; o << ';'; });
            }},
            {{"format", G_SPECIAL, 3}, [](IoWorld& w, const Call& c) {
                T& s = *w.ts[c.t];
                for (Side* x : {&s.real, &s.twin}) switch (c.a(2) % 6) { case 0: x->s << std::setw(c.a(3) % 12); break; case 1: x->s << std::hex << std::showbase; break; case 2: x->s << std::dec << std::left; break; case 3: x->s << std::setfill('*') << std::right; break; case 4: x->s << std::setprecision(c.a(3) % 9); break; default: x->s << std::showpos << std::internal; }
            }},
            {{"clear", G_SPECIAL, 3}, [](IoWorld& w, const Call& c) { T& s = *w.ts[c.t]; s.real.s.clear(); s.twin.s.clear(); if (c.a(2) % 2) { s.real.b.out.clear(); s.twin.b.out.clear(); } }},
            {{"set", G_ASSIGN, 4}, [](IoWorld& w, const Call& c) {
                T& s = *w.ts[c.t]; bool e = c.a(3) % 3;
                switch (c.a(2) % 5) { case 0: if (e) s.i = c.a(4) - 20; else s.i = opt::none; break; case 1: if (e) s.st = std::string(text(c.in(4, 6))); else s.st.reset(); break; case 2: if (e) s.m = Msg{c.a(4) % 50}; else s.m.reset(); break; case 3: if (e) s.d = c.a(4) / 3.0; else s.d.reset(); break; default: if (e) s.c = char('A' + c.in(4, 26)); else s.c.reset(); }
            }},
        };
        return t;
    }
};
SIM_MINI("io", TG_IO, 4, IoWorld);
} // namespace sim
