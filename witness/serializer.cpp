//@ preamble
#include "model_vector.h"
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#include <GTMesh/NumericStaticArray/Vertex.h>
#define EX extern "C"
#define R __restrict
using Bytes = std::vector<unsigned char>;
using It = BinarySerializer::ByteContainerIterator;
// ---- the reference layout
template <class T> inline void raw(Bytes& d, const T& v) { const unsigned char* p = (const unsigned char*)&v; for (size_t i = 0; i < sizeof(T); i++) d.push_back(p[i]); }
template <class T> inline void unraw(It& it, T& v) { unsigned char* p = (unsigned char*)&v; for (size_t i = 0; i < sizeof(T); i++) p[i] = it[i]; it += sizeof(T); }
template <class T> inline T take(It& it) { T v; unraw(it, v); return v; }
template <class T> inline void block(Bytes& d, const T* p, size_t n) { d.insert(d.end(), (const unsigned char*)p, (const unsigned char*)(p + n)); }
template <class T> inline void unblock(It& it, T* p, size_t n) { std::memcpy(p, it.base(), n * sizeof(T)); it += n * sizeof(T); }
enum E1 : short { e1a, e1b = 300 };
enum class E2 : unsigned char { a, b };
enum class E3 { a, b };
// a class with its own functions: the bytes in the opposite order
struct Own { unsigned char a, b; };
inline void BinarySerialize(BinarySerializer::ByteContainer& c, const Own& x) { c.push_back(x.b); c.push_back(x.a); }
inline void BinaryDeserialize(BinarySerializer::ByteContainerIterator& it, Own& x) { x.b = *it; ++it; x.a = *it; ++it; }
inline void put(Bytes& d, const Own& x) { d.push_back(x.b); d.push_back(x.a); }
inline void get(It& it, Own& x) { x.b = it[0]; x.a = it[1]; it += 2; }
inline void put(Bytes& d, double v) { raw(d, v); }
inline void get(It& it, double& v) { unraw(it, v); }
inline void put(Bytes& d, long v) { raw(d, v); }
inline void get(It& it, long& v) { unraw(it, v); }
struct Two { double x; long y; };
MAKE_ATTRIBUTE_TRAIT(Two, x, y);
struct Nest { Two t; Own o; long k; };
MAKE_ATTRIBUTE_TRAIT(Nest, k, t, o);
//@ section scalar argmem=@mv_.*$
#define M(N, ...) \
EX void w_impl_write_##N(Bytes& R d, const __VA_ARGS__& R v) { BinarySerializer::addNext(d, v); } \
EX void w_spec_write_##N(Bytes& R d, const __VA_ARGS__& R v) { raw(d, v); } \
EX void w_impl_read_##N(It& R it, __VA_ARGS__& R v) { BinarySerializer::readNext(it, v); } \
EX void w_spec_read_##N(It& R it, __VA_ARGS__& R v) { unraw(it, v); } \
EX void w_impl_fetch_##N(It& R it, __VA_ARGS__& R v) { v = BinarySerializer::readNext<__VA_ARGS__>(it); } \
EX void w_spec_fetch_##N(It& R it, __VA_ARGS__& R v) { unraw(it, v); }
M(char, char) M(schar, signed char) M(uchar, unsigned char) M(short, short) M(ushort, unsigned short) M(int, int) M(unsigned, unsigned) M(long, long) M(ulong, unsigned long)
M(llong, long long) M(float, float) M(double, double) M(wchar, wchar_t) M(e1, E1) M(e2, E2) M(e3, E3) M(char16, char16_t)
//@ section boolean std=string argmem=@mv_.*$
EX void w_impl_write(Bytes& R d, const bool& R v) { BinarySerializer::addNext(d, v); }
EX void w_spec_write(Bytes& R d, const bool& R v) { d.push_back(v ? 1 : 0); }
EX void w_impl_write_constant(Bytes& R d) { BinarySerializer::addNext(d, true); BinarySerializer::addNext(d, false); }
EX void w_spec_write_constant(Bytes& R d) { d.push_back(1); d.push_back(0); }
EX void w_impl_read(It& R it, bool& R v) { BinarySerializer::readNext(it, v); }
EX void w_spec_read(It& R it, bool& R v) { unsigned char c = *it; if (c == 1) v = true; else if (c == 0) v = false; else throw std::runtime_error(""); ++it; }
EX void w_spec2_read(It& R it, bool& R v) { unsigned char c = *it; if (c > 1) throw std::runtime_error(""); ++it; v = c; }
//@ section own argmem=@mv_.*$
EX void w_impl_write(Bytes& R d, const Own& R v) { BinarySerializer::addNext(d, v); }
EX void w_spec_write(Bytes& R d, const Own& R v) { put(d, v); }
EX void w_impl_read(It& R it, Own& R v) { BinarySerializer::readNext(it, v); }
EX void w_spec_read(It& R it, Own& R v) { get(it, v); }
//@ section reflected argmem=@mv_.*$
EX void w_impl_write(Bytes& R d, const Two& R v) { BinarySerializer::addNext(d, v); }
EX void w_spec_write(Bytes& R d, const Two& R v) { raw(d, v.x); raw(d, v.y); }
EX void w_impl_read(It& R it, Two& R v) { BinarySerializer::readNext(it, v); }
EX void w_spec_read(It& R it, Two& R v) { unraw(it, v.x); unraw(it, v.y); }
EX void w_impl_write_nested(Bytes& R d, const Nest& R v) { BinarySerializer::addNext(d, v); }
EX void w_spec_write_nested(Bytes& R d, const Nest& R v) { raw(d, v.k); raw(d, v.t.x); raw(d, v.t.y); put(d, v.o); }
EX void w_impl_read_nested(It& R it, Nest& R v) { BinarySerializer::readNext(it, v); }
EX void w_spec_read_nested(It& R it, Nest& R v) { unraw(it, v.k); unraw(it, v.t.x); unraw(it, v.t.y); get(it, v.o); }
// reflections bound to the object: the bound one, in its order
EX void w_impl_write_bound(Bytes& R d, const Two& R v) { BinarySerializer::addNext(d, bindTraits(v, makeTraits<Two>("y", &Two::y, "x", &Two::x))); }
EX void w_spec_write_bound(Bytes& R d, const Two& R v) { raw(d, v.y); raw(d, v.x); }
EX void w_impl_read_bound(It& R it, Two& R v) { auto t = makeTraits<Two>("y", &Two::y); auto b = bindTraits(v, t); BinarySerializer::readNext(it, b); }
EX void w_spec_read_bound(It& R it, Two& R v) { unraw(it, v.y); }
//@ section convertible argmem=@mv_.*$
// what converts to a number is not a number
struct Truthy { long k; operator bool() const { return k; } };
MAKE_ATTRIBUTE_TRAIT(Truthy, k);
struct Number { long k, u; operator double() const { return k; } };
MAKE_ATTRIBUTE_TRAIT(Number, k, u);
struct OwnNumber : Own { operator int() const { return a; } };
#define M(T, W, G) \
EX void w_impl_write_##T(Bytes& R d, const T& R v) { BinarySerializer::addNext(d, v); } \
EX void w_spec_write_##T(Bytes& R d, const T& R v) { W; } \
EX void w_impl_read_##T(It& R it, T& R v) { BinarySerializer::readNext(it, v); } \
EX void w_spec_read_##T(It& R it, T& R v) { G; }
M(Truthy, raw(d, v.k), unraw(it, v.k))
M(Number, raw(d, v.k); raw(d, v.u), unraw(it, v.k); unraw(it, v.u))
M(OwnNumber, put(d, v), get(it, v))
//@ nocompile pointer
void f(Bytes& d, const double* p) { BinarySerializer::addNext(d, p); }
//@ section compact argmem=@mv_.*$;;@std::.*::resize$
#define M(N, NUM, ...) \
EX void w_impl_write_##N(Bytes& R d, const __VA_ARGS__& R v) { BinarySerializer::addNext(d, v); } \
EX void w_spec_write_##N(Bytes& R d, const __VA_ARGS__& R v) { raw(d, v.size()); if (NUM) block(d, &v[0], NUM); } \
EX void w_spec2_write_##N(Bytes& R d, const __VA_ARGS__& R v) { raw(d, v.size()); block(d, &v[0], NUM); } \
EX void w_spec3_write_##N(Bytes& R d, const __VA_ARGS__& R v) { raw(d, v.size()); for (size_t i = 0; i < NUM; i++) raw(d, v[i]); } \
EX void w_impl_read_##N(It& R it, __VA_ARGS__& R v) { BinarySerializer::readNext(it, v); }
#define GROW(N, ...) M(N, v.size(), __VA_ARGS__) \
EX void w_spec_read_##N(It& R it, __VA_ARGS__& R v) { size_t n = take<size_t>(it); if (v.size() != n) { v.resize(n); if (v.size() != n) throw std::runtime_error(""); } unblock(it, v.size() ? &v[0] : nullptr, n); } \
EX void w_spec2_read_##N(It& R it, __VA_ARGS__& R v) { size_t n = take<size_t>(it); if (v.size() != n) v.resize(n); unblock(it, &v[0], n); } \
EX void w_spec3_read_##N(It& R it, __VA_ARGS__& R v) { size_t n = take<size_t>(it); v.resize(n); unblock(it, &v[0], n); }
#define KEEP(N, NUM, ...) M(N, NUM, __VA_ARGS__) \
EX void w_spec_read_##N(It& R it, __VA_ARGS__& R v) { auto n = take<decltype(v.size())>(it); if (n != NUM) throw std::runtime_error(""); unblock(it, &v[0], NUM); }
GROW(doubles, std::vector<double>) GROW(vector_of_enum, std::vector<E1>) GROW(string, std::string) GROW(vector_of_char, std::vector<char>) GROW(vector_of_bytes, Bytes)
KEEP(array, 3, std::array<int, 3>) KEEP(array_of_double, 2, std::array<double, 2>) KEEP(vertex, 3, Vertex<3, double>) KEEP(vertex2, 2, Vertex<2, float>)
//@ section elements argmem=@mv_.*$;;@std::.*::resize$
inline void put(Bytes& d, const Two& v) { raw(d, v.x); raw(d, v.y); }
inline void get(It& it, Two& v) { unraw(it, v.x); unraw(it, v.y); }
inline void put(Bytes& d, const std::vector<double>& v) { raw(d, v.size()); block(d, v.size() ? &v[0] : nullptr, v.size()); }
inline void get(It& it, std::vector<double>& v) { size_t n = take<size_t>(it); if (v.size() != n) { v.resize(n); if (v.size() != n) throw std::runtime_error(""); } unblock(it, v.size() ? &v[0] : nullptr, n); }
inline void put(Bytes& d, const std::string& v) { raw(d, v.size()); block(d, v.size() ? &v[0] : nullptr, v.size()); }
inline void get(It& it, std::string& v) { size_t n = take<size_t>(it); if (v.size() != n) { v.resize(n); if (v.size() != n) throw std::runtime_error(""); } unblock(it, v.size() ? &v[0] : nullptr, n); }
inline void put(Bytes& d, const std::pair<double, long>& v) { raw(d, v.first); raw(d, v.second); }
inline void get(It& it, std::pair<double, long>& v) { unraw(it, v.first); unraw(it, v.second); }
#define M(N, ...) \
EX void w_impl_write_##N(Bytes& R d, const __VA_ARGS__& R v) { BinarySerializer::addNext(d, v); } \
EX void w_spec_write_##N(Bytes& R d, const __VA_ARGS__& R v) { raw(d, v.size()); for (const auto& x : v) put(d, x); } \
EX void w_spec2_write_##N(Bytes& R d, const __VA_ARGS__& R v) { raw(d, v.size()); for (size_t i = 0; i < v.size(); i++) put(d, v[i]); } \
EX void w_impl_read_##N(It& R it, __VA_ARGS__& R v) { BinarySerializer::readNext(it, v); }
#define GROW(N, ...) M(N, __VA_ARGS__) \
EX void w_spec_read_##N(It& R it, __VA_ARGS__& R v) { size_t n = take<size_t>(it); if (v.size() != n) v.resize(n); for (auto& x : v) get(it, x); } \
EX void w_spec2_read_##N(It& R it, __VA_ARGS__& R v) { size_t n = take<size_t>(it); if (v.size() != n) v.resize(n); for (size_t i = 0; i < n; i++) get(it, v[i]); } \
EX void w_spec3_read_##N(It& R it, __VA_ARGS__& R v) { size_t n = take<size_t>(it); v.resize(n); for (auto& x : v) get(it, x); } \
EX void w_spec4_read_##N(It& R it, __VA_ARGS__& R v) { size_t n = take<size_t>(it); v.resize(n); for (size_t i = 0; i < n; i++) get(it, v[i]); }
#define KEEP(N, NUM, ...) M(N, __VA_ARGS__) \
EX void w_spec_read_##N(It& R it, __VA_ARGS__& R v) { size_t n = take<size_t>(it); if (n != NUM) throw std::runtime_error(""); for (auto& x : v) get(it, x); } \
EX void w_spec2_read_##N(It& R it, __VA_ARGS__& R v) { size_t n = take<size_t>(it); if (v.size() != n) throw std::runtime_error(""); for (size_t i = 0; i < n; i++) get(it, v[i]); }
GROW(vector_own, std::vector<Own>) GROW(vector_reflected, std::vector<Two>) GROW(vector_vector, std::vector<std::vector<double>>) GROW(vector_string, std::vector<std::string>) GROW(vector_pair, std::vector<std::pair<double, long>>)
KEEP(array_own, 3, std::array<Own, 3>) KEEP(array_reflected, 2, std::array<Two, 2>) KEEP(array_vector, 2, std::array<std::vector<double>, 2>)
//@ section nodes argmem=@mv_.*$;;@std::.*list<.*>::(resize|clear|push_back|emplace_back)$;;@std::.*::resize$
using LO = std::list<Own>; using LD = std::list<double>; using DO = std::deque<Own>; using DD = std::deque<double>;
#define M(N, ...) \
EX void w_impl_write_##N(Bytes& R d, const __VA_ARGS__& R v) { BinarySerializer::addNext(d, v); } \
EX void w_spec_write_##N(Bytes& R d, const __VA_ARGS__& R v) { raw(d, v.size()); for (const auto& x : v) put(d, x); } \
EX void w_impl_read_##N(It& R it, __VA_ARGS__& R v) { BinarySerializer::readNext(it, v); } \
EX void w_spec_read_##N(It& R it, __VA_ARGS__& R v) { size_t n = take<size_t>(it); if (v.size() != n) v.resize(n); for (auto& x : v) get(it, x); } \
EX void w_spec2_read_##N(It& R it, __VA_ARGS__& R v) { size_t n = take<size_t>(it); v.resize(n); for (auto& x : v) get(it, x); }
M(list_own, LO) M(list_double, LD) M(deque_own, DO) M(deque_double, DD)
//@ section maps std=map argmem=@mv_.*$;;@std::.*string<.*>::(resize|operator=|basic_string|_M_.*)$
#define M(N, K, V, ...) \
using T_##N = __VA_ARGS__; \
EX void w_impl_write_##N(Bytes& R d, const T_##N& R v) { BinarySerializer::addNext(d, v); } \
EX void w_spec_write_##N(Bytes& R d, const T_##N& R v) { raw(d, v.size()); for (const auto& x : v) { put(d, x.first); put(d, x.second); } } \
EX void w_spec2_write_##N(Bytes& R d, const T_##N& R v) { raw(d, v.size()); for (auto i = v.begin(); i != v.end(); ++i) { auto& x = *i; put(d, x.first); put(d, x.second); } } \
EX void w_impl_read_##N(It& R it, T_##N& R v) { BinarySerializer::readNext(it, v); } \
EX void w_spec_read_##N(It& R it, T_##N& R v) { size_t n = take<size_t>(it); v.clear(); for (size_t i = 0; i < n; i++) { std::pair<K, V> x; get(it, x.first); get(it, x.second); v.insert(x); } } \
EX void w_spec2_read_##N(It& R it, T_##N& R v) { size_t n = take<size_t>(it); v.clear(); for (size_t i = 0; i < n; i++) { std::pair<K, V> x; get(it, x.first); get(it, x.second); v.insert(std::move(x)); } } \
EX void w_spec3_read_##N(It& R it, T_##N& R v) { size_t n = take<size_t>(it); v.clear(); for (size_t i = 0; i < n; i++) { std::pair<K, V> x; get(it, x.first); get(it, x.second); v.emplace(x.first, x.second); } } \
EX void w_spec4_read_##N(It& R it, T_##N& R v) { size_t n = take<size_t>(it); v.clear(); for (size_t i = 0; i < n; i++) { std::pair<K, V> x; get(it, x.first); get(it, x.second); v.emplace(std::move(x)); } } \
EX void w_spec5_read_##N(It& R it, T_##N& R v) { v.clear(); size_t n = take<size_t>(it); for (size_t i = 0; i < n; i++) { std::pair<K, V> x; get(it, x.first); get(it, x.second); v.insert(x); } } \
EX void w_spec6_read_##N(It& R it, T_##N& R v) { size_t n = take<size_t>(it); v.clear(); for (size_t i = 0; i < n; i++) { K k; get(it, k); V x; get(it, x); v.insert(std::make_pair(k, x)); } } \
EX void w_spec7_read_##N(It& R it, T_##N& R v) { size_t n = take<size_t>(it); v.clear(); for (size_t i = 0; i < n; i++) { K k; get(it, k); V x; get(it, x); v.insert({k, x}); } } \
EX void w_spec8_read_##N(It& R it, T_##N& R v) { size_t n = take<size_t>(it); v.clear(); for (size_t i = 0; i < n; i++) { K k; get(it, k); V x; get(it, x); v.emplace(k, x); } } \
EX void w_spec9_read_##N(It& R it, T_##N& R v) { size_t n = take<size_t>(it); v.clear(); for (size_t i = 0; i < n; i++) { K k; get(it, k); V x; get(it, x); v.emplace(std::move(k), std::move(x)); } } \
EX void w_spec10_read_##N(It& R it, T_##N& R v) { size_t n = take<size_t>(it); v.clear(); for (size_t i = 0; i < n; i++) { std::pair<const K, V> x; get(it, const_cast<K&>(x.first)); get(it, x.second); v.insert(x); } }
M(map_double, long, double, std::map<long, double>) M(map_own, long, Own, std::map<long, Own>) M(multimap, double, long, std::multimap<double, long>) M(unordered_map, long, double, std::unordered_map<long, double>) M(unordered_multimap, long, double, std::unordered_multimap<long, double>)
//@ section sets std=map argmem=@mv_.*$
inline bool operator<(const Own& a, const Own& b) { return a.a < b.a; }
#define M(N, K, ...) \
using T_##N = __VA_ARGS__; \
EX void w_impl_write_##N(Bytes& R d, const T_##N& R v) { BinarySerializer::addNext(d, v); } \
EX void w_spec_write_##N(Bytes& R d, const T_##N& R v) { raw(d, v.size()); for (const auto& x : v) put(d, x); } \
EX void w_spec2_write_##N(Bytes& R d, const T_##N& R v) { raw(d, v.size()); for (auto i = v.begin(); i != v.end(); ++i) put(d, *i); } \
EX void w_impl_read_##N(It& R it, T_##N& R v) { BinarySerializer::readNext(it, v); } \
EX void w_spec_read_##N(It& R it, T_##N& R v) { size_t n = take<size_t>(it); v.clear(); for (size_t i = 0; i < n; i++) { K x; get(it, x); v.insert(x); } } \
EX void w_spec2_read_##N(It& R it, T_##N& R v) { size_t n = take<size_t>(it); v.clear(); for (size_t i = 0; i < n; i++) { K x; get(it, x); v.insert(std::move(x)); } } \
EX void w_spec3_read_##N(It& R it, T_##N& R v) { size_t n = take<size_t>(it); v.clear(); for (size_t i = 0; i < n; i++) { K x; get(it, x); v.emplace(x); } }
M(set_long, long, std::set<long>) M(set_own, Own, std::set<Own>) M(multiset, long, std::multiset<long>) M(unordered_set, long, std::unordered_set<long>)
//@ section tuples argmem=@mv_.*$;;@std::.*::resize$
using P = std::pair<long, Own>; using P2 = std::pair<P, double>; using T0 = std::tuple<>; using T1 = std::tuple<double>; using T3 = std::tuple<long, Own, double>; using TN = std::tuple<P, T3, Two>;
EX void w_impl_write_pair(Bytes& R d, const P& R v) { BinarySerializer::addNext(d, v); }
EX void w_spec_write_pair(Bytes& R d, const P& R v) { raw(d, v.first); put(d, v.second); }
EX void w_impl_read_pair(It& R it, P& R v) { BinarySerializer::readNext(it, v); }
EX void w_spec_read_pair(It& R it, P& R v) { unraw(it, v.first); get(it, v.second); }
EX void w_impl_write_pair2(Bytes& R d, const P2& R v) { BinarySerializer::addNext(d, v); }
EX void w_spec_write_pair2(Bytes& R d, const P2& R v) { raw(d, v.first.first); put(d, v.first.second); raw(d, v.second); }
EX void w_impl_read_pair2(It& R it, P2& R v) { BinarySerializer::readNext(it, v); }
EX void w_spec_read_pair2(It& R it, P2& R v) { unraw(it, v.first.first); get(it, v.first.second); unraw(it, v.second); }
EX void w_impl_write_one(Bytes& R d, const T1& R v) { BinarySerializer::addNext(d, v); }
EX void w_spec_write_one(Bytes& R d, const T1& R v) { raw(d, std::get<0>(v)); }
EX void w_impl_write_three(Bytes& R d, const T3& R v) { BinarySerializer::addNext(d, v); }
EX void w_spec_write_three(Bytes& R d, const T3& R v) { raw(d, std::get<0>(v)); put(d, std::get<1>(v)); raw(d, std::get<2>(v)); }
EX void w_impl_read_three(It& R it, T3& R v) { BinarySerializer::readNext(it, v); }
EX void w_spec_read_three(It& R it, T3& R v) { unraw(it, std::get<0>(v)); get(it, std::get<1>(v)); unraw(it, std::get<2>(v)); }
EX void w_impl_write_nested(Bytes& R d, const TN& R v) { BinarySerializer::addNext(d, v); }
EX void w_spec_write_nested(Bytes& R d, const TN& R v) { raw(d, std::get<0>(v).first); put(d, std::get<0>(v).second); const T3& t = std::get<1>(v); raw(d, std::get<0>(t)); put(d, std::get<1>(t)); raw(d, std::get<2>(t)); raw(d, std::get<2>(v).x); raw(d, std::get<2>(v).y); }
EX void w_impl_read_nested(It& R it, TN& R v) { BinarySerializer::readNext(it, v); }
EX void w_spec_read_nested(It& R it, TN& R v) { unraw(it, std::get<0>(v).first); get(it, std::get<0>(v).second); T3& t = std::get<1>(v); unraw(it, std::get<0>(t)); get(it, std::get<1>(t)); unraw(it, std::get<2>(t)); unraw(it, std::get<2>(v).x); unraw(it, std::get<2>(v).y); }
using T8 = std::tuple<char, short, int, long, float, double, Own, unsigned>;
template <size_t I> struct all8 { template <class F> static void go(F f, T8& t) { all8<I - 1>::go(f, t); f(std::get<I - 1>(t)); } };
template <> struct all8<0> { template <class F> static void go(F, T8&) {} };
struct eight_out { Bytes& d; template <class X> void operator()(X& x) { raw(d, x); } void operator()(Own& x) { put(d, x); } };
struct eight_in { It& it; template <class X> void operator()(X& x) { unraw(it, x); } void operator()(Own& x) { get(it, x); } };
EX void w_impl_write_eight(Bytes& R d, T8& R v) { BinarySerializer::addNext(d, v); }
EX void w_spec_write_eight(Bytes& R d, T8& R v) { all8<8>::go(eight_out{d}, v); }
EX void w_impl_read_eight(It& R it, T8& R v) { BinarySerializer::readNext(it, v); }
EX void w_spec_read_eight(It& R it, T8& R v) { all8<8>::go(eight_in{it}, v); }
//@ section sequence argmem=@mv_.*$
EX void w_impl_write(Bytes& R d, const double& R a, const Own& R b, const Two& R c) { BinarySerializer s; s.write(a, b, c); d = s.getData(); }
EX void w_spec_write(Bytes& R d, const double& R a, const Own& R b, const Two& R c) { Bytes s; raw(s, a); put(s, b); raw(s, c.x); raw(s, c.y); d = s; }
EX void w_impl_stream(Bytes& R d, const double& R a, const Own& R b, const Two& R c) { BinarySerializer s; s << a << b << c; d = s.getData(); }
EX void w_spec_stream(Bytes& R d, const double& R a, const Own& R b, const Two& R c) { Bytes s; raw(s, a); put(s, b); raw(s, c.x); raw(s, c.y); d = s; }
struct Keep { It at; };
inline void BinaryDeserialize(It& it, Keep& k) { k.at = it; }
#define SAME(N, ...) EX void w_impl_read_##N(const double& R a, const Own& R b, const Two& R c, double& R x, Own& R y, Two& R z) { BinarySerializer s; s << a << b << c; __VA_ARGS__; } \
EX void w_spec_read_##N(const double& R a, const Own& R b, const Two& R c, double& R x, Own& R y, Two& R z) { Bytes s; raw(s, a); put(s, b); raw(s, c.x); raw(s, c.y); It it = s.cbegin(); unraw(it, x); get(it, y); unraw(it, z.x); unraw(it, z.y); }
SAME(all, s.read(x, y, z)) SAME(stream, s >> x >> y >> z) SAME(each, s.read(x); s.read(y); s.read(z)) SAME(value, x = s.read<double>(); y = s.read<Own>(); z = s.read<Two>())
//@ section valarray std=valarray argmem=@mv_.*$
using VA = std::valarray<double>; using VO = std::valarray<Own>;
#define M(T) \
EX void w_impl_write_##T(Bytes& R d, const T& R v) { BinarySerializer::addNext(d, v); } \
EX void w_spec_write_##T(Bytes& R d, const T& R v) { raw(d, v.size()); for (size_t i = 0; i < v.size(); i++) put(d, v[i]); } \
EX void w_spec2_write_##T(Bytes& R d, const T& R v) { size_t n = v.size(); raw(d, n); for (size_t i = 0; i < n; i++) put(d, v[i]); } \
EX void w_impl_read_##T(It& R it, T& R v) { BinarySerializer::readNext(it, v); } \
EX void w_spec_read_##T(It& R it, T& R v) { size_t n = take<size_t>(it); if (v.size() != n) { v.resize(n); if (v.size() != n) throw std::runtime_error(""); } for (size_t i = 0; i < n; i++) get(it, v[i]); } \
EX void w_spec2_read_##T(It& R it, T& R v) { size_t n = take<size_t>(it); if (v.size() != n) v.resize(n); for (size_t i = 0; i < n; i++) get(it, v[i]); } \
EX void w_spec3_read_##T(It& R it, T& R v) { size_t n = take<size_t>(it); v.resize(n); for (size_t i = 0; i < n; i++) get(it, v[i]); } \
EX void w_spec4_read_##T(It& R it, T& R v) { size_t n = take<size_t>(it); [&] { if (v.size() == n) return; v.resize(n); if (v.size() != n) throw std::runtime_error(""); }(); for (size_t i = 0; i < n; i++) get(it, v[i]); }
M(VA) M(VO)
//@ section bound_elements argmem=@mv_.*$
using VT = std::vector<Two>;
EX void w_impl_write(Bytes& R d, const VT& R v) { auto t = makeTraits<Two>("y", &Two::y); BinarySerializer::addNext(d, bindTraits(v, t)); }
EX void w_spec_write(Bytes& R d, const VT& R v) { raw(d, v.size()); for (size_t i = 0; i < v.size(); i++) raw(d, v[i].y); }
EX void w_impl_read(It& R it, VT& R v) { auto t = makeTraits<Two>("y", &Two::y); auto b = bindTraits(v, t); BinarySerializer::readNext(it, b); }
EX void w_spec_read(It& R it, VT& R v) { size_t n = take<size_t>(it); if (v.size() != n) v.resize(n); for (size_t i = 0; i < n; i++) unraw(it, v[i].y); }
EX void w_spec2_read(It& R it, VT& R v) { size_t n = take<size_t>(it); v.resize(n); for (size_t i = 0; i < n; i++) unraw(it, v[i].y); }
