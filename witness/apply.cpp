//@ preamble
#include "meshref.h"
using namespace ref;
using D2 = UnstructuredMesh<2, size_t, double>;
using F2 = UnstructuredMesh<2, unsigned int, float>;
using D3 = UnstructuredMesh<3, size_t, double, 6>;
using V3 = UnstructuredMesh<3, size_t, double>;
using D4 = UnstructuredMesh<4, size_t, double, 6, 6>;
using V4 = UnstructuredMesh<4, unsigned int, double>;
// what the user's functor does with a pair: an opaque call, so the ordered trace of pairs is compared
EX void visit(size_t a, size_t b);
#define N4_(p, M, S, T) p##M##_##S##_##T
#define N4(p, M, S, T) N4_(p, M, S, T)
struct Fn { template <class I> void operator()(I a, I b) const { visit(a, b); } };
// reference: the lists as stored; D is the dimension of element i, T the target
template <unsigned D, unsigned T, unsigned MD> struct Walk {
    template <class M, class I, class F> static void run(const M& m, I i, F f) {
        const auto& s = m.template getElements<D>()[i].getSubelements();
        for (size_t k = 0; k < s.size(); ++k) Walk<D - 1, T, MD>::run(m, s[k], f);
    }
};
template <unsigned T, unsigned MD> struct WalkCell {
    template <class M, class I, class F> static void run(const M& m, I i, F f) {
        auto first = m.getCells()[i].getBoundaryElementIndex();
        auto e = first;
        do {
            Walk<MD - 1, T, MD>::run(m, e, f);
            e = m.getFaces()[e].getNextBElem(i);
        } while (e != first);
    }
};
template <unsigned T, unsigned MD> struct WalkEdge {
    template <class M, class I, class F> static void run(const M& m, I i, F f) {
        Walk<0, T, MD>::run(m, m.getEdges()[i].getVertexAIndex(), f);
        Walk<0, T, MD>::run(m, m.getEdges()[i].getVertexBIndex(), f);
    }
};
template <unsigned D, unsigned MD> struct Walk<D, D, MD> {
    template <class M, class I, class F> static void run(const M&, I i, F f) { f(i); }
};
template <> struct Walk<0, 0, 2> { template <class M, class I, class F> static void run(const M&, I i, F f) { f(i); } };
template <> struct Walk<0, 0, 3> { template <class M, class I, class F> static void run(const M&, I i, F f) { f(i); } };
template <> struct Walk<0, 0, 4> { template <class M, class I, class F> static void run(const M&, I i, F f) { f(i); } };
template <> struct Walk<2, 0, 2> : WalkCell<0, 2> {};
template <> struct Walk<2, 1, 2> : WalkCell<1, 2> {};
template <> struct Walk<3, 0, 3> : WalkCell<0, 3> {};
template <> struct Walk<3, 1, 3> : WalkCell<1, 3> {};
template <> struct Walk<3, 2, 3> : WalkCell<2, 3> {};
template <> struct Walk<4, 0, 4> : WalkCell<0, 4> {};
template <> struct Walk<4, 1, 4> : WalkCell<1, 4> {};
template <> struct Walk<4, 2, 4> : WalkCell<2, 4> {};
template <> struct Walk<4, 3, 4> : WalkCell<3, 4> {};
template <> struct Walk<1, 0, 2> : WalkEdge<0, 2> {};
template <> struct Walk<1, 0, 3> : WalkEdge<0, 3> {};
template <> struct Walk<1, 0, 4> : WalkEdge<0, 4> {};
// whole mesh, S > T: (element, part); S < T: (part, element); S == T: (element, element)
template <unsigned S, unsigned T, class M> void all(const M& m) {
    constexpr unsigned h = S > T ? S : T, l = S > T ? T : S;
    for (typename info<M>::index i = 0; i < m.template getElements<h>().size(); ++i)
        Walk<h, l, info<M>::dim>::run(m, i, [i](size_t j) { if (S > T) visit(i, j); else visit(j, i); });
}
template <unsigned S, unsigned T, class M> void one(typename info<M>::index i, const M& m) {
    Walk<S, T, info<M>::dim>::run(m, i, [i](size_t j) { visit(i, j); });
}
#define A(M, S, T) \
    EX void N4(w_impl_all_, M, S, T)(const M& m) { MeshApply<S, T>::apply(m, Fn()); } \
    EX void N4(w_spec_all_, M, S, T)(const M& m) { all<S, T>(m); }
#define O(M, S, T) \
    EX void N4(w_impl_one_, M, S, T)(size_t i, const M& m) { typename info<M>::index k = i; MeshApply<S, T>::apply(k, m, Fn()); } \
    EX void N4(w_spec_one_, M, S, T)(size_t i, const M& m) { one<S, T>(typename info<M>::index(i), m); }
#define B(M, S, T) A(M, S, T) A(M, T, S) O(M, S, T)
//@ section plane std=vector argmem=@visit$
A(D2, 0, 0) A(D2, 1, 1) A(D2, 2, 2) O(D2, 0, 0) O(D2, 1, 1) O(D2, 2, 2)
B(D2, 1, 0) B(D2, 2, 1) B(D2, 2, 0) B(F2, 1, 0) B(F2, 2, 1) B(F2, 2, 0)
//@ section space_fixed std=vector argmem=@visit$
A(D3, 0, 0) A(D3, 3, 3) O(D3, 3, 3)
B(D3, 1, 0) B(D3, 2, 0) B(D3, 2, 1) B(D3, 3, 0) B(D3, 3, 1) B(D3, 3, 2)
//@ section space_dynamic std=vector argmem=@visit$
B(V3, 1, 0) B(V3, 2, 0) B(V3, 2, 1) B(V3, 3, 0) B(V3, 3, 1) B(V3, 3, 2)
//@ section four_fixed std=vector argmem=@visit$
B(D4, 1, 0) B(D4, 2, 0) B(D4, 2, 1) B(D4, 3, 0) B(D4, 3, 1) B(D4, 3, 2) B(D4, 4, 0) B(D4, 4, 1) B(D4, 4, 2) B(D4, 4, 3)
//@ section four_dynamic std=vector argmem=@visit$ thorough
B(V4, 1, 0) B(V4, 2, 0) B(V4, 2, 1) B(V4, 3, 0) B(V4, 3, 1) B(V4, 3, 2) B(V4, 4, 0) B(V4, 4, 1) B(V4, 4, 2) B(V4, 4, 3)
