//@ preamble
#include "meshref.h"
#include <type_traits>
using namespace ref;
using D2 = UnstructuredMesh<2, size_t, double>;
using D3 = UnstructuredMesh<3, unsigned int, double, 6>;
using V3 = UnstructuredMesh<3, size_t, float>;
using D4 = UnstructuredMesh<4, size_t, double>;
template <class M, unsigned d> struct Each {
    static bool empty(const M& m) { return m.template getElements<d>().empty() && Each<M, d - 1>::empty(m); }
};
template <class M> struct Each<M, 0> {
    static bool empty(const M& m) { return m.template getElements<0>().empty() && m.getBoundaryCells().empty() && m.getVertices().size() == 0; }
};
#define ALL(N) N(D2) N(D3) N(V3) N(D4)
//@ section fresh
#define N(M) EX bool CAT(w_true_fresh, M)() { M m; return Each<M, info<M>::dim>::empty(m); }
ALL(N)
//@ section constructed std=vector
// an element is constructed with what it is given, and everything else is invalid
template <class M> using I = typename info<M>::index;
#define N(M) \
EX bool CAT(w_true_cell, M)(I<M> i) { M::Cell c(i), d; return c.getIndex() == i && invalid(c.getBoundaryElementIndex()) && invalid(d.getIndex()) && invalid(d.getBoundaryElementIndex()); } \
EX bool CAT(w_true_edge, M)(I<M> i, I<M> a, I<M> b) { M::Edge c(i, a, b), d, e(i); return c.getIndex() == i && c.getVertexAIndex() == a && c.getVertexBIndex() == b && invalid(d.getIndex()) && invalid(d.getVertexAIndex()) && invalid(d.getVertexBIndex()) && e.getIndex() == i && invalid(e.getVertexAIndex()) && invalid(e.getVertexBIndex()); } \
EX bool CAT(w_true_edgeset, M)(I<M> i, I<M> a, I<M> b) { M::Edge c(i); c.setVertexAIndex(a); c.setVertexBIndex(b); return c.getIndex() == i && c.getVertexAIndex() == a && c.getVertexBIndex() == b; } \
EX bool CAT(w_true_face, M)(I<M> i) { M::Face c(i), d; return c.getIndex() == i && invalid(c.getCellLeftIndex()) && invalid(c.getCellRightIndex()) && invalid(c.getNextBElemWRTCL()) && invalid(c.getNextBElemWRTCR()) && invalid(d.getIndex()) && invalid(d.getCellLeftIndex()) && invalid(d.getCellRightIndex()); } \
EX bool CAT(w_true_vertex, M)(I<M> i, const Vertex<info<M>::dim, info<M>::real>& v) { M::Vertex c(i, v), d(i); bool r = c.getIndex() == i && d.getIndex() == i; for (unsigned k = 0; k < info<M>::dim; ++k) r = r && c[k] - v[k] == 0 && d[k] == info<M>::real(0); return r; } \
EX bool CAT(w_true_index, M)(I<M> i, I<M> j) { M::Cell c(i); M::Vertex v(i); c.setIndex(j); v.setIndex(j); c.setBoundaryElementIndex(i); return c.getIndex() == j && v.getIndex() == j && c.getBoundaryElementIndex() == i; }
ALL(N)
#undef N
//@ section clear pure=@std::vector<.*>::~vector$
#define N(M) EX bool CAT(w_true_clear, M)(M& m) { m.clear(); return Each<M, info<M>::dim>::empty(m); }
ALL(N)
//@ section move pure=@std::vector<.*>::~vector$
// the moved-to mesh has the tables of the source
template <class M, unsigned d> struct Tab { const void* p[d + 2]; size_t n[d + 2]; size_t sig; };
template <class M, unsigned d> struct Take {
    template <class T> static void get(const M& m, T& t) { t.p[d] = m.template getElements<d>().data(); t.n[d] = m.template getElements<d>().size(); Take<M, d - 1>::get(m, t); }
};
template <class M> struct Take<M, 0> {
    template <class T> static void get(const M& m, T& t) { t.p[0] = m.template getElements<0>().data(); t.n[0] = m.template getElements<0>().size(); t.p[info<M>::dim + 1] = m.getBoundaryCells().data(); t.n[info<M>::dim + 1] = m.getBoundaryCells().size(); t.sig = m.getSignature(); }
};
template <class M> bool same(const M& m, const Tab<M, info<M>::dim>& t) {
    Tab<M, info<M>::dim> u;
    Take<M, info<M>::dim>::get(m, u);
    for (unsigned i = 0; i < info<M>::dim + 2; ++i) if (u.p[i] != t.p[i] || u.n[i] != t.n[i]) return false;
    return u.sig == t.sig;
}
#define N(M) \
EX bool CAT(w_true_move, M)(M& R a, M* R o) { Tab<M, info<M>::dim> t; Take<M, info<M>::dim>::get(a, t); new (o) M(std::move(a)); return same<M>(*o, t); } \
EX bool CAT(w_true_moved, M)(M& R a, M* R o) { new (o) M(std::move(a)); return Each<M, info<M>::dim>::empty(a); } \
EX bool CAT(w_true_moveassign, M)(M& R a, M* R o) { Tab<M, info<M>::dim> t; Take<M, info<M>::dim>::get(a, t); *o = std::move(a); return same<M>(*o, t); }
ALL(N)
//@ section signature std=vector opaque=@std::hash<.*>::operator;;@std::_Hash_bytes
#define N(M) \
EX bool CAT(w_true_copysig, M)(const M& R a, M* R o) { new (o) M(a); return o->getSignature() == a.getSignature(); } \
EX bool CAT(w_true_assignsig, M)(const M& R a, M* R o) { *o = a; return o->getSignature() == a.getSignature(); }
ALL(N)
//@ compile value_semantics
template <class M> struct chk {
    static_assert(std::is_copy_constructible<M>::value && std::is_copy_assignable<M>::value, "a mesh can be copied");
    static_assert(std::is_nothrow_move_constructible<M>::value && std::is_nothrow_move_assignable<M>::value, "a mesh can be moved");
    static_assert(std::is_default_constructible<M>::value, "");
};
#define N(M) template struct chk<M>;
ALL(N)
