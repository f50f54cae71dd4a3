// reference programs for the mesh algorithms, written from their documentation
#ifndef MESHREF_H
#define MESHREF_H
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#include <array>
#include <cmath>
#include <new>
#define R __restrict
#define EX extern "C"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
namespace ref {
template <unsigned D, class T> using Pt = ::Vertex<D, T>;
template <unsigned D, class T> using Centers = MakeMeshDataContainer_t<Pt<D, T>, make_custom_integer_sequence_t<unsigned int, 1, D>>;
template <unsigned D, class T> using Measures = MakeMeshDataContainer_t<T, make_custom_integer_sequence_t<unsigned int, 1, D>>;
template <unsigned D, class T> using Normals = MeshDataContainer<Pt<D, T>, D - 1>;
template <class M> struct info;
template <unsigned D, class I, class T, unsigned... Rs> struct info<UnstructuredMesh<D, I, T, Rs...>> {
    static constexpr unsigned dim = D;
    using index = I;
    using real = T;
    using pt = Pt<D, T>;
};
template <class I> bool invalid(I i) { return i == static_cast<I>(~I(0)); }
template <class I> bool boundary(I i) { return i >> (8 * sizeof(I) - 1); }
// length of b minus its projections on the (already orthonormalised) vectors
template <unsigned D, class T> Pt<D, T> minusproj(Pt<D, T> v, const Pt<D, T>& e) {
    T c = 0;
    for (unsigned i = 0; i < D; ++i) c += v[i] * e[i];
    for (unsigned i = 0; i < D; ++i) v[i] -= e[i] * c;
    return v;
}
template <unsigned D, class T> T length(const Pt<D, T>& v) {
    T c = 0;
    for (unsigned i = 0; i < D; ++i) c += v[i] * v[i];
    return std::sqrt(c);
}
template <unsigned D, class T> T unit(Pt<D, T>& v) {
    T n = length<D, T>(v);
    for (unsigned i = 0; i < D; ++i) v[i] /= n;
    return n;
}
// orthonormalises v in place, classical Gram-Schmidt with all coefficients from the incoming vector
template <unsigned D, class T, size_t N> void ortho(std::array<Pt<D, T>, N>& v, std::array<T, N>& n) {
    n[0] = unit<D, T>(v[0]);
    for (size_t i = 1; i < N; ++i) {
        T c[N];
        for (size_t j = 0; j < i; ++j) {
            c[j] = 0;
            for (unsigned k = 0; k < D; ++k) c[j] += v[i][k] * v[j][k];
        }
        for (size_t j = 0; j < i; ++j)
            for (unsigned k = 0; k < D; ++k) v[i][k] -= c[j] * v[j][k];
        n[i] = unit<D, T>(v[i]);
    }
}
} // namespace ref
#endif
