//@ preamble
#include "model_vector.h"
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#include <GTMesh/NumericStaticArray/Vertex.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#define EX extern "C"
#define R __restrict
using Bytes = std::vector<unsigned char>;
using It = BinarySerializer::ByteContainerIterator;
template <class T> inline void unraw(It& it, T& v) { unsigned char* p = (unsigned char*)&v; for (size_t i = 0; i < sizeof(T); i++) p[i] = it[i]; it += sizeof(T); }
template <class T> inline T take(It& it) { T v; unraw(it, v); return v; }
inline void refuse() { throw std::runtime_error(""); }
struct Own { unsigned char a, b; };
inline void BinarySerialize(BinarySerializer::ByteContainer& c, const Own& x) { c.push_back(x.b); c.push_back(x.a); }
inline void BinaryDeserialize(BinarySerializer::ByteContainerIterator& it, Own& x) { x.b = *it; ++it; x.a = *it; ++it; }
struct Two { double x; long y; };
MAKE_ATTRIBUTE_TRAIT(Two, x, y);
inline void get(It& it, Own& x) { x.b = it[0]; x.a = it[1]; it += 2; }
inline void get(It& it, Two& v) { unraw(it, v.x); unraw(it, v.y); }
inline void get(It& it, double& v) { unraw(it, v); }
inline void get(It& it, short& v) { unraw(it, v); }
inline void get(It& it, std::array<double, 2>& v) { if (take<size_t>(it) != 2) refuse(); unraw(it, v[0]); unraw(it, v[1]); }
inline void get(It& it, Vertex<2, double>& v) { if (take<unsigned>(it) != 2) refuse(); unraw(it, v[0]); unraw(it, v[1]); }
namespace tnl {
template <class T, int N> struct Fixed {
    T d[N];
    int getSize() const { return N; }
    const T& operator[](int i) const { return d[i]; }
    T& operator[](int i) { return d[i]; }
    T* getData() { return d; }
    const T* getData() const { return d; }
};
template <class T> struct View {
    T* d; long n;
    long getSize() const { return n; }
    const T& operator[](long i) const { return d[i]; }
    T& operator[](long i) { return d[i]; }
};
template <class T> struct Array {
    T* d; long n;
    long getSize() const { return n; }
    void setSize(long k) { d = (T*)mv_resize((size_t)d, n, k); n = k; }
    const T& operator[](long i) const { return d[i]; }
    T& operator[](long i) { return d[i]; }
    T* getData() { return d; }
    const T* getData() const { return d; }
};
}
// a container of the user: a window into somebody else's elements
template <class T> struct Window {
    T* d; size_t n;
    size_t size() const { return n; }
    T* data() { return d; }
    const T* data() const { return d; }
    const T& operator[](size_t i) const { return d[i]; }
    T& operator[](size_t i) { return d[i]; }
};
struct Holder { long k; std::array<double, 2> a; };
MAKE_ATTRIBUTE_TRAIT(Holder, k, a);
//@ section block argmem=@mv_.*$
#define M(N, S, L, ...) \
EX void w_impl_##N(It& R it, __VA_ARGS__& R v) { BinarySerializer::readNext(it, v); } \
EX void w_spec_##N(It& R it, __VA_ARGS__& R v) { auto n = take<S>(it); if (n != (S)(L)) refuse(); std::memcpy(&v[0], it.base(), sizeof(v[0]) * (L)); it += sizeof(v[0]) * (L); } \
EX void w_spec2_##N(It& R it, __VA_ARGS__& R v) { auto n = take<S>(it); if (n != (S)(L)) refuse(); std::memcpy(&v[0], it.base(), sizeof(v[0]) * n); it += sizeof(v[0]) * n; } \
EX void w_spec3_##N(It& R it, __VA_ARGS__& R v) { auto n = take<S>(it); if (n != (S)(L)) refuse(); std::memcpy((L) ? &v[0] : nullptr, it.base(), sizeof(v[0]) * n); it += sizeof(v[0]) * n; }
M(array1, size_t, 1, std::array<double, 1>) M(array3, size_t, 3, std::array<short, 3>) M(array16, size_t, 16, std::array<long, 16>) M(vertex1, unsigned, 1, Vertex<1, double>) M(vertex3, unsigned, 3, Vertex<3, double>) M(vertex3f, unsigned, 3, Vertex<3, float>)
M(vector3, unsigned, 3, Vector<3, double>) M(tnl_fixed, int, 3, tnl::Fixed<double, 3>) M(window, size_t, v.n, Window<double>)
//@ section elements argmem=@mv_.*$
#define M(N, S, L, ...) \
EX void w_impl_##N(It& R it, __VA_ARGS__& R v) { BinarySerializer::readNext(it, v); } \
EX void w_spec_##N(It& R it, __VA_ARGS__& R v) { auto n = take<S>(it); if (n != (S)(L)) refuse(); for (S i = 0; i < n; i++) get(it, v[i]); } \
EX void w_spec2_##N(It& R it, __VA_ARGS__& R v) { auto n = take<S>(it); if (n != (S)(L)) refuse(); for (S i = 0; i < (S)(L); i++) get(it, v[i]); }
M(array_own, size_t, 3, std::array<Own, 3>) M(array_reflected, size_t, 2, std::array<Two, 2>) M(array_array, size_t, 2, std::array<std::array<double, 2>, 2>) M(array_vertex, size_t, 3, std::array<Vertex<2, double>, 3>)
M(tnl_fixed, int, 3, tnl::Fixed<Own, 3>) M(tnl_view, long, v.n, tnl::View<double>) M(tnl_view_own, long, v.n, tnl::View<Two>) M(window_own, size_t, v.n, Window<Own>)
//@ section inside argmem=@mv_.*$
EX void w_impl_member(It& R it, Holder& R v) { BinarySerializer::readNext(it, v); }
EX void w_spec_member(It& R it, Holder& R v) { unraw(it, v.k); get(it, v.a); }
EX void w_impl_pair(It& R it, std::pair<double, std::array<double, 2>>& R v) { BinarySerializer::readNext(it, v); }
EX void w_spec_pair(It& R it, std::pair<double, std::array<double, 2>>& R v) { unraw(it, v.first); get(it, v.second); }
EX void w_impl_bound(It& R it, std::array<Two, 3>& R v) { auto t = makeTraits<Two>("y", &Two::y); auto b = bindTraits(v, t); BinarySerializer::readNext(it, b); }
EX void w_spec_bound(It& R it, std::array<Two, 3>& R v) { auto n = take<size_t>(it); if (n != 3) refuse(); for (size_t i = 0; i < n; i++) unraw(it, v[i].y); }
EX void w_spec2_bound(It& R it, std::array<Two, 3>& R v) { auto n = take<size_t>(it); if (n != 3) refuse(); for (size_t i = 0; i < 3; i++) unraw(it, v[i].y); }
//@ section growing argmem=@mv_.*$
EX void w_impl_tnl_block(It& R it, tnl::Array<double>& R v) { BinarySerializer::readNext(it, v); }
EX void w_spec_tnl_block(It& R it, tnl::Array<double>& R v) { auto n = take<long>(it); if (v.n != n) v.setSize(n); double* p = v.n > 0 ? v.d : nullptr; std::memcpy(p, it.base(), n * 8); it += n * 8; }
EX void w_impl_tnl_own(It& R it, tnl::Array<Own>& R v) { BinarySerializer::readNext(it, v); }
EX void w_spec_tnl_own(It& R it, tnl::Array<Own>& R v) { auto n = take<long>(it); if (v.n != n) v.setSize(n); for (long i = 0; i < n; i++) get(it, v[i]); }
