//@ preamble
#include "model_stream.h"
#include <GTMesh/Debug/VariableExport.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#define EX extern "C"
// an element the printers know nothing about but how to hand it over
struct E { long x; };
EX void visit(size_t f, long e);
inline void PrintTo(const E& e, std::ostream& o) { visit(o.s.id, e.x); }
inline void PrintTo(const E& e) { visit(1, e.x); }
#define HEX(F, V) ms_uint(F, V, 16)
struct Sink {
    size_t f;
    bool c;
    const Sink& operator<<(const char* s) const { ms_str(f, s); return *this; }
    const Sink& operator<<(const E& e) const { visit(f, e.x); return *this; }
    const Sink& operator<<(const std::string& s) const {
        ms_char(f, '"');
        ms_str(f, s.c_str());
        ms_char(f, '"');
        return *this;
    }
    template <class A, class B> const Sink& operator<<(const std::pair<A, B>& p) const { return *this << "{ " << p.first << ": " << p.second << "}"; }
};
// the same list three ways: separator after, before, or between
template <int V> struct Seq {
    template <class I, class P> static void each(const Sink& t, I b, I e, P p) {
        t << "[ ";
        if (V == 1) { while (b != e) { p(*b); if (++b != e) t << ", "; } }
        if (V == 2) { for (I i = b; i != e; ++i) { if (i != b) t << ", "; p(*i); } }
        if (V == 3) { if (b != e) { p(*b); for (++b; b != e; ++b) { t << ", "; p(*b); } } }
        if (V == 4) { bool first = true; for (I i = b; i != e; ++i) { if (!first) t << ", "; first = false; p(*i); } }
        if (V == 5) { const char* s = ""; for (I i = b; i != e; ++i) { t << s; p(*i); s = ", "; } }
        t << " ]";
    }
    template <class P, class N> static void count(const Sink& t, N n, P p) {
        t << "[ ";
        if (V == 1) { for (N i = 0; i < n; i++) { p(i); if (i < n - 1) t << ", "; } }
        if (V == 2) { for (N i = 0; i < n; i++) { if (i > 0) t << ", "; p(i); } }
        if (V == 3) { if (n > 0) { p(0); for (N i = 1; i < n; i++) { t << ", "; p(i); } } }
        if (V == 4) { bool first = true; for (N i = 0; i < n; i++) { if (!first) t << ", "; first = false; p(i); } }
        if (V == 5) { const char* s = ""; for (N i = 0; i < n; i++) { t << s; p(i); s = ", "; } }
        t << " ]";
    }
};
#define ONE(NAME, ARG, VALUE, ...) \
EX void w_impl_##NAME##_stream(size_t f, ARG) { std::ostream o(f); VariableExport::exportVariable(o, VALUE); } \
EX void w_spec_##NAME##_stream(size_t f, ARG) { Sink t{f, false}; __VA_ARGS__; } \
EX void w_impl_##NAME##_stdio(ARG) { VariableExport::exportVariable(VALUE); } \
EX void w_spec_##NAME##_stdio(ARG) { Sink t{1, true}; __VA_ARGS__; }
#define LIST(NAME, ARG, VALUE, ...) \
EX void w_impl_##NAME##_stream(size_t f, ARG) { std::ostream o(f); VariableExport::exportVariable(o, VALUE); } \
EX void w_spec_##NAME##_stream(size_t f, ARG) { Sink t{f, false}; using S = Seq<1>; __VA_ARGS__; } \
EX void w_spec2_##NAME##_stream(size_t f, ARG) { Sink t{f, false}; using S = Seq<2>; __VA_ARGS__; } \
EX void w_spec3_##NAME##_stream(size_t f, ARG) { Sink t{f, false}; using S = Seq<3>; __VA_ARGS__; } \
EX void w_spec4_##NAME##_stream(size_t f, ARG) { Sink t{f, false}; using S = Seq<4>; __VA_ARGS__; } \
EX void w_spec5_##NAME##_stream(size_t f, ARG) { Sink t{f, false}; using S = Seq<5>; __VA_ARGS__; } \
EX void w_impl_##NAME##_stdio(ARG) { VariableExport::exportVariable(VALUE); } \
EX void w_spec_##NAME##_stdio(ARG) { Sink t{1, true}; using S = Seq<1>; __VA_ARGS__; } \
EX void w_spec2_##NAME##_stdio(ARG) { Sink t{1, true}; using S = Seq<2>; __VA_ARGS__; } \
EX void w_spec3_##NAME##_stdio(ARG) { Sink t{1, true}; using S = Seq<3>; __VA_ARGS__; } \
EX void w_spec4_##NAME##_stdio(ARG) { Sink t{1, true}; using S = Seq<4>; __VA_ARGS__; } \
EX void w_spec5_##NAME##_stdio(ARG) { Sink t{1, true}; using S = Seq<5>; __VA_ARGS__; }
struct R1 { E a; };
struct R3 { E a; const char* b; E c; };
struct RN { R1 a; std::array<E, 4> b; };
struct G { E e; const E& get() const { return e; } void set(const E& x) { e = x; } };
struct RX { E a; E b; };
MAKE_ATTRIBUTE_TRAIT(R1, a);
MAKE_ATTRIBUTE_TRAIT(R3, a, b, c);
MAKE_ATTRIBUTE_TRAIT(RN, a, b);
MAKE_NAMED_ATTRIBUTE_TRAIT(RX, "first member", b, "second", a);
MAKE_CUSTOM_TRAIT(G, "value", std::make_pair(&G::get, &G::set));
struct Sized { const E* p; long n; long getSize() const { return n; } const E& operator[](long i) const { return p[i]; } };
struct Counted { const E* p; unsigned n; size_t size() const { return n; } const E& operator[](size_t i) const { return p[i]; } };
//@ section elements argmem=@(visit|ms_.*)$
ONE(element, const E& x, x, t << x)
ONE(pair, const E& x, (std::pair<E, E>{x, x}), t << "{ " << x << ": " << x << "}")
using TextPair = std::pair<const std::string, E>;
using T1 = std::tuple<E>;
using T3 = std::tuple<E, std::string, E>;
ONE(pair_of_text, const TextPair& x, x, t << "{ " << x.first << ": " << x.second << "}")
ONE(tuple0, const std::tuple<>& x, x, t << "[ ]")
ONE(tuple1, const T1& x, x, t << "[ " << std::get<0>(x) << "]")
ONE(tuple3, const T3& x, x, t << "[ " << std::get<0>(x) << ", " << std::get<1>(x) << ", " << std::get<2>(x) << "]")
ONE(class1, const R1& x, x, t << "{ \"a\" : " << x.a << " }")
ONE(class3, const R3& x, x, t << "{ \"a\" : " << x.a << ", \"b\" : \""; ms_str(t.f, x.b); t << "\", \"c\" : " << x.c << " }")
ONE(class_named, const RX& x, x, t << "{ \"first member\" : " << x.b << ", \"second\" : " << x.a << " }")
ONE(class_getter, const G& x, x, t << "{ \"value\" : " << x.e << " }")
//@ section lists argmem=@(visit|ms_.*)$ std=vector,map
using VE = std::vector<E>;
using VVE = std::vector<std::vector<E>>;
using A3 = std::array<E, 3>;
using A0 = std::array<E, 0>;
using M = std::map<long, E>;
LIST(vector, const VE& x, x, S::each(t, x.begin(), x.end(), [&](const E& e) { t << e; }))
LIST(array, const A3& x, x, S::each(t, x.begin(), x.end(), [&](const E& e) { t << e; }))
LIST(array_empty, const A0& x, x, t << "[  ]")
LIST(nested, const VVE& x, x, S::each(t, x.begin(), x.end(), [&](const VE& y) { S::each(t, y.begin(), y.end(), [&](const E& e) { t << e; }); }))
LIST(class_nested, const RN& x, x, t << "{ \"a\" : { \"a\" : " << x.a.a << " }, \"b\" : "; S::each(t, x.b.begin(), x.b.end(), [&](const E& e) { t << e; }); t << " }")
LIST(sized, const Sized& x, x, S::count(t, x.n, [&](long i) { t << x.p[i]; }))
LIST(counted, const Counted& x, x, S::count(t, size_t(x.n), [&](size_t i) { t << x.p[i]; }))
//@ section linked argmem=@(visit|ms_.*)$
LIST(list, const std::list<E>& x, x, S::each(t, x.begin(), x.end(), [&](const E& e) { t << e; }))
//@ section scalars argmem=@(visit|ms_.*)$
#define SCALAR(NAME, T, ...) ONE(NAME, const T& x, x, __VA_ARGS__)
SCALAR(bool_, bool, ms_str(t.f, x ? "true" : "false"))
SCALAR(short_, short, ms_int(t.f, x, 10))
SCALAR(int_, int, ms_int(t.f, x, 10))
SCALAR(long_, long, ms_int(t.f, x, 10))
SCALAR(long_long_, long long, ms_int(t.f, x, 10))
SCALAR(unsigned_short_, unsigned short, ms_int(t.f, int(x), 10))
SCALAR(unsigned_, unsigned, ms_uint(t.f, x, 10))
SCALAR(unsigned_long_, unsigned long, ms_uint(t.f, x, 10))
SCALAR(unsigned_long_long_, unsigned long long, ms_uint(t.f, x, 10))
SCALAR(signed_char_, signed char, ms_char(t.f, x))
SCALAR(unsigned_char_, unsigned char, ms_char(t.f, x))
SCALAR(float_, float, ms_real(t.f, x, 6, 0))
SCALAR(double_, double, ms_real(t.f, x, 6, 0))
SCALAR(long_double_, long double, ms_lreal(t.f, x, 6, 0))
using PI = int*;
using PV = void*;
using PC = const R3*;
SCALAR(pointer, PI, ms_pointer(t.f, x))
SCALAR(void_pointer, PV, ms_pointer(t.f, x))
SCALAR(class_pointer, PC, ms_pointer(t.f, x))
//@ section texts argmem=@(visit|ms_.*)$
#define QUOTED(...) ms_char(t.f, '"'); __VA_ARGS__; ms_char(t.f, '"')
using S5 = char[5];
using PS = char*;
using PCS = const char*;
ONE(string, const std::string& x, x, t << x)
ONE(text, const PCS& x, x, QUOTED(ms_str(t.f, x)))
ONE(mutable_text, const PS& x, x, QUOTED(ms_str(t.f, x)))
ONE(array_text, const S5& x, x, QUOTED(ms_str(t.f, x)))
ONE(letter, const char& x, x, QUOTED(ms_char(t.f, x)))
ONE(literal, int, "ab", t << "\"ab\"")

//@ section unknown argmem=@(visit|ms_.*)$
struct Odd { unsigned char b[3]; };
struct Big { long a; char c[2]; };
template <class T> void bytes(const Sink& t, const T& x) {
    ms_str(t.f, typeid(T).name());
    t << "(";
    for (size_t i = 0; i < sizeof(T); i++) {
        if (i) t << " ";
        ms_pad(t.f, 2, '0');
        HEX(t.f, reinterpret_cast<const unsigned char*>(&x)[i]);
    }
    t << ")";
}
ONE(odd, const Odd& x, x, bytes(t, x))
ONE(big, const Big& x, x, bytes(t, x))
//@ section state argmem=@(visit|ms_.*)$
EX void w_impl_format_kept(size_t f, const R3& x, long v) { std::ostream o(f); o << std::hex; VariableExport::exportVariable(o, x); o << v; }
EX void w_spec_format_kept(size_t f, const R3& x, long v) { std::ostream o(f); VariableExport::exportVariable(o, x); ms_uint(f, v, 16); }
struct Odd { unsigned char b[1]; };
EX void w_impl_format_restored(size_t f, const Odd& x, long v) { std::ostream o(f); VariableExport::exportVariable(o, x); o << v; o << std::setw(4) << v; }
EX void w_spec_format_restored(size_t f, const Odd& x, long v) { std::ostream o(f); VariableExport::exportVariable(o, x); ms_int(f, v, 10); ms_pad(f, 4, ' '); ms_int(f, v, 10); }
//@ section exportable argmem=@(visit|ms_.*)$
struct Wide { long a; E e; };
inline std::ostream& operator<<(std::ostream& o, const Wide& w) { return o << "<" << w.a << ">"; }
enum Plain { RED, BLUE };
enum class Mode { ON, OFF };
inline std::ostream& operator<<(std::ostream& o, const Mode& w) { return o << (w == Mode::ON ? "on" : "off"); }
EX void w_impl_wide_stream(size_t f, const Wide& x) { std::ostream o(f); VariableExport::exportVariable(o, x); }
EX void w_spec_wide_stream(size_t f, const Wide& x) { Sink t{f, false}; t << "<"; ms_int(f, x.a, 10); t << ">"; }
EX void w_impl_wide_stdio(const Wide& x) { VariableExport::exportVariable(x); }
EX void w_spec_wide_stdio(const Wide& x) { std::ostringstream o; o << x; ms_str(1, o.str().c_str()); }
EX void w_impl_mode_stream(size_t f, const Mode& x) { std::ostream o(f); VariableExport::exportVariable(o, x); }
EX void w_spec_mode_stream(size_t f, const Mode& x) { ms_str(f, x == Mode::ON ? "on" : "off"); }
EX void w_impl_mode_stdio(const Mode& x) { VariableExport::exportVariable(x); }
EX void w_spec_mode_stdio(const Mode& x) { std::ostringstream o; o << x; ms_str(1, o.str().c_str()); }
//@ section bound argmem=@(visit|ms_.*)$ std=vector
struct P { E x; E y; };
struct Q { P p; std::vector<P> l; std::array<P, 2> a; std::pair<P, E> b; std::tuple<P, E> t; E e; };
MAKE_ATTRIBUTE_TRAIT(P, x, y);
MAKE_NAMED_ATTRIBUTE_TRAIT(Q, "e", e, "p", p);
#define BOUND(NAME, TYPE, TRAITS, ...) \
EX void w_impl_##NAME##_stream(size_t f, TYPE& x) { std::ostream o(f); VariableExport::exportVariable(o, bindTraits(x, TRAITS)); } \
EX void w_spec_##NAME##_stream(size_t f, TYPE& x) { Sink t{f, false}; using S = Seq<1>; __VA_ARGS__; } \
EX void w_spec2_##NAME##_stream(size_t f, TYPE& x) { Sink t{f, false}; using S = Seq<2>; __VA_ARGS__; } \
EX void w_spec3_##NAME##_stream(size_t f, TYPE& x) { Sink t{f, false}; using S = Seq<3>; __VA_ARGS__; } \
EX void w_impl_##NAME##_stdio(TYPE& x) { VariableExport::exportVariable(bindTraits(x, TRAITS)); } \
EX void w_spec_##NAME##_stdio(TYPE& x) { Sink t{1, true}; using S = Seq<1>; __VA_ARGS__; } \
EX void w_spec2_##NAME##_stdio(TYPE& x) { Sink t{1, true}; using S = Seq<2>; __VA_ARGS__; } \
EX void w_spec3_##NAME##_stdio(TYPE& x) { Sink t{1, true}; using S = Seq<3>; __VA_ARGS__; }
#define C ,
using VP = std::vector<P>;
BOUND(member, P, makeTraits<P>("only y" C &P::y), t << "{ \"only y\" : " << x.y << " }")
BOUND(const_object, const P, makeTraits<P>("y" C &P::y C "x" C &P::x), t << "{ \"y\" : " << x.y << ", \"x\" : " << x.x << " }")
BOUND(container, VP, makeTraits<P>("y" C &P::y), S::each(t, x.begin(), x.end(), [&](const P& e) { t << "{ \"y\" : " << e.y << " }"; }))
BOUND(nested, Q, makeTraits<Q>("p" C &Q::p) C makeTraits<P>("second" C &P::y), t << "{ \"p\" : { \"second\" : " << x.p.y << " } }")
BOUND(nested_default, Q, makeTraits<Q>("e" C &Q::e C "p" C &Q::p), t << "{ \"e\" : " << x.e << ", \"p\" : { \"x\" : " << x.p.x << ", \"y\" : " << x.p.y << " } }")
BOUND(inner_only, Q, makeTraits<P>("second" C &P::y), t << "{ \"e\" : " << x.e << ", \"p\" : { \"second\" : " << x.p.y << " } }")
BOUND(in_array, Q, makeTraits<Q>("a" C &Q::a) C makeTraits<P>("y" C &P::y), t << "{ \"a\" : "; S::each(t, x.a.begin(), x.a.end(), [&](const P& e) { t << "{ \"y\" : " << e.y << " }"; }); t << " }")
BOUND(in_pair, Q, makeTraits<Q>("b" C &Q::b) C makeTraits<P>("y" C &P::y), t << "{ \"b\" : { { \"y\" : " << x.b.first.y << " }: " << x.b.second << "} }")
BOUND(in_tuple, Q, makeTraits<Q>("t" C &Q::t) C makeTraits<P>("y" C &P::y), t << "{ \"t\" : [ { \"y\" : " << std::get<0>(x.t).y << " }, " << std::get<1>(x.t) << "] }")
struct IX { const P* p; long n; long getSize() const { return n; } const P& operator[](long i) const { return p[i]; } };
BOUND(in_indexable, IX, makeTraits<P>("y" C &P::y), S::count(t, x.n, [&](long i) { t << "{ \"y\" : " << x.p[i].y << " }"; }))
//@ section precedence argmem=@(visit|ms_.*)$ std=vector
// own PrintTo first, then text, list, class
struct A1 { E a; E b; };
MAKE_ATTRIBUTE_TRAIT(A1, a, b);
inline void PrintTo(const A1& x, std::ostream& o) { visit(o.s.id, x.b.x); }
inline void PrintTo(const A1& x) { visit(1, x.b.x); }
struct A3S { E e; };
MAKE_ATTRIBUTE_TRAIT(A3S, e);
inline std::ostream& operator<<(std::ostream& o, const A3S&) { return o << "wrong"; }
// a list which is a reflected class, or has an operator, too
struct LC { E* p; size_t n; E* begin() const { return p; } E* end() const { return p + n; } };
struct LX { E* p; size_t n; size_t size() const { return n; } const E& operator[](size_t i) const { return p[i]; } };
struct LB { E* p; size_t n; E* begin() const { return p; } E* end() const { return p + n; } size_t size() const { return n + 1; } const E& operator[](size_t i) const { return p[i + 1]; } };
struct LO { E* p; size_t n; E* begin() const { return p; } E* end() const { return p + n; } };
struct LP { E* p; size_t n; E* begin() const { return p; } E* end() const { return p + n; } };
struct XO { E* p; size_t n; size_t size() const { return n; } const E& operator[](size_t i) const { return p[i]; } };
MAKE_ATTRIBUTE_TRAIT(LC, n); MAKE_ATTRIBUTE_TRAIT(LX, n);
inline std::ostream& operator<<(std::ostream& o, const LO&) { return o << "wrong"; }
inline std::ostream& operator<<(std::ostream& o, const XO&) { return o << "wrong"; }
inline void PrintTo(const LP& x, std::ostream& o) { visit(o.s.id, x.n); }
inline void PrintTo(const LP& x) { visit(1, x.n); }
LIST(list_reflected, const LC& x, x, S::each(t, x.begin(), x.end(), [&](const E& e) { t << e; }))
LIST(indexed_reflected, const LX& x, x, S::count(t, x.n, [&](size_t i) { t << x.p[i]; }))
LIST(list_and_indexed, const LB& x, x, S::each(t, x.begin(), x.end(), [&](const E& e) { t << e; }))
LIST(list_with_operator, const LO& x, x, S::each(t, x.begin(), x.end(), [&](const E& e) { t << e; }))
LIST(indexed_with_operator, const XO& x, x, S::count(t, x.n, [&](size_t i) { t << x.p[i]; }))
ONE(list_own_print, const LP& x, x, t << E{long(x.n)})
ONE(own_print, const A1& x, x, t << x.b)
ONE(class_with_operator, const A3S& x, x, t << "{ \"e\" : " << x.e << " }")
//@ section library argmem=@(visit|ms_.*)$ std=vector
using V3 = Vector<3, double>;
using X2 = Vertex<2, float>;
ONE(vector3, const V3& x, x, t << "[ "; ms_real(t.f, x[0], 6, 0); t << ", "; ms_real(t.f, x[1], 6, 0); t << ", "; ms_real(t.f, x[2], 6, 0); t << " ]")
ONE(vertex2, const X2& x, x, t << "[ "; ms_real(t.f, x[0], 6, 0); t << ", "; ms_real(t.f, x[1], 6, 0); t << " ]")
