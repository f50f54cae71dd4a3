//@ preamble
#include "model_stream.h"
#include <GTMesh/Debug/VariableExport.h>
#include <GTMesh/Debug/ConsoleLogger.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#define EX extern "C"
// an element the printers know nothing about but how to hand it over
struct E { long x; };
EX void visit(size_t f, long e);
inline void PrintTo(const E& e, std::ostream& o) { visit(o.s.id, e.x); }
inline void PrintTo(const E& e) { visit(1, e.x); }
#define HEX(F, V) ms_uint(F, V, 16)
struct Sink {
    size_t f;
    bool c;
    const Sink& operator<<(const char* s) const { ms_str(f, s); return *this; }
    const Sink& operator<<(const E& e) const { visit(f, e.x); return *this; }
    const Sink& operator<<(const std::string& s) const {
        ms_char(f, '"');
        ms_str(f, s.c_str());
        ms_char(f, '"');
        return *this;
    }
    template <class A, class B> const Sink& operator<<(const std::pair<A, B>& p) const { return *this << "{ " << p.first << ": " << p.second << "}"; }
};
#define ONE(NAME, ARG, VALUE, ...) \
EX void w_impl_##NAME(ARG) { VariableExport::exportVariable(VALUE); } \
EX void w_spec_##NAME(ARG) { Sink t{1, true}; __VA_ARGS__; }
struct R3 { int a; };
//@ section scalars argmem=@(visit|ms_.*)$
#define SCALAR(NAME, T, ...) ONE(NAME, const T& x, x, __VA_ARGS__)
SCALAR(bool_, bool, ms_str(t.f, x ? "true" : "false"))
SCALAR(short_, short, ms_int(t.f, x, 10))
SCALAR(int_, int, ms_int(t.f, x, 10))
SCALAR(long_, long, ms_int(t.f, x, 10))
SCALAR(long_long_, long long, ms_int(t.f, x, 10))
SCALAR(unsigned_short_, unsigned short, ms_int(t.f, int(x), 10))
SCALAR(unsigned_, unsigned, ms_uint(t.f, x, 10))
SCALAR(unsigned_long_, unsigned long, ms_uint(t.f, x, 10))
SCALAR(unsigned_long_long_, unsigned long long, ms_uint(t.f, x, 10))
SCALAR(signed_char_, signed char, ms_char(t.f, x))
SCALAR(unsigned_char_, unsigned char, ms_char(t.f, x))
SCALAR(float_, float, ms_real(t.f, x, 6, 0))
SCALAR(double_, double, ms_real(t.f, x, 6, 0))
SCALAR(long_double_, long double, ms_lreal(t.f, x, 6, 0))
using PI = int*;
using PV = void*;
using PC = const R3*;
SCALAR(pointer, PI, ms_pointer(t.f, x))
SCALAR(void_pointer, PV, ms_pointer(t.f, x))
SCALAR(class_pointer, PC, ms_pointer(t.f, x))
//@ section texts argmem=@(visit|ms_.*)$
#define QUOTED(...) ms_char(t.f, '"'); __VA_ARGS__; ms_char(t.f, '"')
using S5 = char[5];
using PS = char*;
using PCS = const char*;
ONE(string, const std::string& x, x, t << x)
ONE(text, const PCS& x, x, QUOTED(ms_str(t.f, x)))
ONE(mutable_text, const PS& x, x, QUOTED(ms_str(t.f, x)))
ONE(array_text, const S5& x, x, QUOTED(ms_str(t.f, x)))
ONE(letter, const char& x, x, QUOTED(ms_char(t.f, x)))
ONE(literal, int, "ab", t << "\"ab\"")

//@ section containers argmem=@(visit|ms_.*)$ std=vector
// numbers inside the other printers
using VI = std::array<long, 2>;
using PU = std::pair<unsigned long, float>;
using TU = std::tuple<char, short, long double>;
struct Nums { unsigned long long a; unsigned b; signed char c; bool d; float e; };
MAKE_ATTRIBUTE_TRAIT(Nums, a, b, c, d, e);
ONE(array, const VI& x, x, t << "[ "; ms_int(t.f, x[0], 10); t << ", "; ms_int(t.f, x[1], 10); t << " ]")
ONE(pair, const PU& x, x, t << "{ "; ms_uint(t.f, x.first, 10); t << ": "; ms_real(t.f, x.second, 6, 0); t << "}")
ONE(tuple, const TU& x, x, t << "[ \""; ms_char(t.f, std::get<0>(x)); t << "\", "; ms_int(t.f, std::get<1>(x), 10); t << ", "; ms_lreal(t.f, std::get<2>(x), 6, 0); t << "]")
ONE(members, const Nums& x, x, t << "{ \"a\" : "; ms_uint(t.f, x.a, 10); t << ", \"b\" : "; ms_uint(t.f, x.b, 10); t << ", \"c\" : "; ms_char(t.f, x.c); t << ", \"d\" : "; ms_str(t.f, x.d ? "true" : "false"); t << ", \"e\" : "; ms_real(t.f, x.e, 6, 0); t << " }")
//@ section records argmem=@(visit|ms_.*)$
static void place(const Sink& t, int l, const char* fn, const char* fl) { ms_str(1, fl); t << ": "; ms_int(1, l, 10); t << " <"; ms_str(1, fn); t << "> "; }
static void value(const Sink& t, int l, const char* fn, const char* fl, const char* n, const E& e) { t << "== "; place(t, l, fn, fl); t << "[[ "; ms_str(1, n); t << " ]] ==> " << e << "\n"; }
static void message(const Sink& t, const char* p, int l, const char* fn, const char* fl, const E& e) { ms_str(1, p); t << " "; place(t, l, fn, fl); t << "==> " << e << " <==\n"; }
EX void w_impl_value(int l, const char* fn, const char* fl, const char* n, const E& e) { ConsoleLogger::writeVarC(l, fn, fl, n, e); }
EX void w_spec_value(int l, const char* fn, const char* fl, const char* n, const E& e) { value(Sink{1, true}, l, fn, fl, n, e); }
EX void w_impl_values(int l, const char* fn, const char* fl, const char* n, const E& e, const char* n2, const E& e2) { ConsoleLogger::writeVarC(l, fn, fl, n, e, n2, e2); }
EX void w_spec_values(int l, const char* fn, const char* fl, const char* n, const E& e, const char* n2, const E& e2) { value(Sink{1, true}, l, fn, fl, n, e); value(Sink{1, true}, l, fn, fl, n2, e2); }
EX void w_impl_message(const char* p, int l, const char* fn, const char* fl, const E& e) { ConsoleLogger::writeMessageC(p, l, fn, fl, e); }
EX void w_spec_message(const char* p, int l, const char* fn, const char* fl, const E& e) { message(Sink{1, true}, p, l, fn, fl, e); }
EX void w_impl_messages(const char* p, int l, const char* fn, const char* fl, const E& e, const E& e2) { ConsoleLogger::writeMessageC(p, l, fn, fl, e, e2); }
EX void w_spec_messages(const char* p, int l, const char* fn, const char* fl, const E& e, const E& e2) { message(Sink{1, true}, p, l, fn, fl, e); message(Sink{1, true}, p, l, fn, fl, e2); }
