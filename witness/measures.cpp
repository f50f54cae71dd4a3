//@ preamble
#include "meshref.h"
using namespace ref;
using D2 = UnstructuredMesh<2, size_t, double>;
using F2 = UnstructuredMesh<2, unsigned int, float>;
using D3 = UnstructuredMesh<3, size_t, double, 6>;
using V3 = UnstructuredMesh<3, size_t, double>;
using D4 = UnstructuredMesh<4, size_t, double, 6, 6>;
template <class M> using Me = Measures<info<M>::dim, typename info<M>::real>;
template <class M> using Ce = Centers<info<M>::dim, typename info<M>::real>;
// length of every edge
template <class M> void edges(const M& m, Me<M>& o) {
    for (size_t i = 0; i < m.getEdges().size(); ++i) {
        const auto& e = m.getEdges()[i];
        o.template getDataByDim<1>()[i] = length<info<M>::dim, typename info<M>::real>(m.getVertices()[e.getVertexAIndex()] - m.getVertices()[e.getVertexBIndex()]);
    }
}
// polygonal cell: triangles spanned by the cell center and each edge
template <class M> Me<M> measures2(const M& m) {
    using T = typename info<M>::real;
    Me<M> o(m);
    edges(m, o);
    for (size_t i = 0; i < m.getCells().size(); ++i) {
        T sum = 0;
        const auto& c = m.getCells()[i].getCenter();
        auto f = m.getCells()[i].getBoundaryElementIndex();
        do {
            const auto& a = m.getVertices()[m.getEdges()[f].getVertexAIndex()];
            const auto& b = m.getVertices()[m.getEdges()[f].getVertexBIndex()];
            sum += std::fabs((c[0] - a[0]) * (b[1] - a[1]) - (c[1] - a[1]) * (b[0] - a[0])) / 2;
            f = m.getFaces()[f].getNextBElem(i);
        } while (f != m.getCells()[i].getBoundaryElementIndex());
        o.template getDataByDim<2>()[i] = sum;
    }
    return o;
}
// face: sum over edges of 1/2 * edge length * distance of the face center from the edge's line
template <class M> void faces3(const M& m, Me<M>& o) {
    using T = typename info<M>::real;
    for (size_t i = 0; i < m.getFaces().size(); ++i) {
        T sum = 0;
        const auto& se = m.getFaces()[i].getSubelements();
        for (size_t k = 0; k < se.size(); ++k) {
            const auto& e = m.getEdges()[se[k]];
            const auto& a = m.getVertices()[e.getVertexAIndex()];
            const auto& b = m.getVertices()[e.getVertexBIndex()];
            std::array<Pt<3, T>, 2> v = {b - a, m.getFaces()[i].getCenter() - a};
            std::array<T, 2> n;
            ortho<3, T, 2>(v, n);
            sum += n[1] * o.template getDataByDim<1>()[se[k]] / 2;
        }
        o.template getDataByDim<2>()[i] = sum;
    }
}
// cell: sum over faces of 1/3 * face measure * distance of the cell center from the face's plane
template <class M> Me<M> measures3(const M& m) {
    using T = typename info<M>::real;
    Me<M> o(m);
    edges(m, o);
    faces3(m, o);
    for (size_t i = 0; i < m.getCells().size(); ++i) {
        T sum = 0;
        const auto& cc = m.getCells()[i].getCenter();
        auto f = m.getCells()[i].getBoundaryElementIndex();
        do {
            const auto& face = m.getFaces()[f];
            const auto& e = m.getEdges()[face.getSubelements()[0]];
            const auto& a = m.getVertices()[e.getVertexAIndex()];
            const auto& b = m.getVertices()[e.getVertexBIndex()];
            std::array<Pt<3, T>, 3> v = {a - b, a - face.getCenter(), a - cc};
            std::array<T, 3> n;
            ortho<3, T, 3>(v, n);
            sum += n[2] * o.template getDataByDim<2>()[f] / 3;
            f = face.getNextBElem(i);
        } while (f != m.getCells()[i].getBoundaryElementIndex());
        o.template getDataByDim<3>()[i] = sum;
    }
    return o;
}
// tessellated cell: tetrahedra (edge, face center, cell center)
template <class M> Me<M> tessellated3(const M& m) {
    using T = typename info<M>::real;
    Me<M> o(m);
    edges(m, o);
    faces3(m, o);
    for (size_t i = 0; i < m.getCells().size(); ++i) {
        T sum = 0;
        auto f = m.getCells()[i].getBoundaryElementIndex();
        do {
            const auto& face = m.getFaces()[f];
            const auto& se = face.getSubelements();
            for (size_t k = 0; k < se.size(); ++k) {
                const auto& e = m.getEdges()[se[k]];
                std::array<Pt<3, T>, 3> v = {m.getVertices()[e.getVertexAIndex()] - face.getCenter(), m.getVertices()[e.getVertexBIndex()] - face.getCenter(), m.getCells()[i].getCenter() - face.getCenter()};
                std::array<T, 3> n;
                ortho<3, T, 3>(v, n);
                sum += n[0] * n[1] * n[2] / 6;
            }
            f = m.getFaces()[f].getNextBElem(i);
        } while (f != m.getCells()[i].getBoundaryElementIndex());
        o.template getDataByDim<3>()[i] = sum;
    }
    return o;
}
// K points in the flat spanned by a K-1 dimensional element: centers of a chain of first subelements down to an edge's end points
template <unsigned K, class M> struct flat {
    template <class O> static void get(const M& m, const Ce<M>& c, size_t i, O* out) {
        out[0] = c.template getDataByDim<K>()[i];
        flat<K - 1, M>::get(m, c, m.template getElements<K>()[i].getSubelements()[0], out + 1);
    }
};
template <class M> struct flat<1, M> {
    template <class O> static void get(const M& m, const Ce<M>&, size_t i, O* out) {
        out[0] = m.getVertices()[m.getEdges()[i].getVertexAIndex()];
        out[1] = m.getVertices()[m.getEdges()[i].getVertexBIndex()];
    }
};
// 1/K * sum over subelements of measure * distance of the center from the subelement's flat
template <unsigned K, class M> typename info<M>::real pyramid(const M& m, const Ce<M>& c, const Me<M>& o, size_t i, size_t s) {
    using T = typename info<M>::real;
    constexpr unsigned D = info<M>::dim;
    Pt<D, T> p[K];
    flat<K - 1, M>::get(m, c, s, p);
    std::array<Pt<D, T>, K> v;
    for (unsigned j = 1; j < K; ++j) v[j - 1] = p[j] - p[0];
    v[K - 1] = c.template getDataByDim<K>()[i] - p[0];
    std::array<T, K> n;
    ortho<D, T, K>(v, n);
    return n[K - 1] * o.template getDataByDim<K - 1>()[s];
}
template <unsigned K, class M> void listed(const M& m, const Ce<M>& c, Me<M>& o) {
    for (size_t i = 0; i < m.template getElements<K>().size(); ++i) {
        typename info<M>::real sum = 0;
        const auto& se = m.template getElements<K>()[i].getSubelements();
        for (size_t k = 0; k < se.size(); ++k) sum += pyramid<K>(m, c, o, i, se[k]);
        o.template getDataByDim<K>()[m.template getElements<K>()[i].getIndex()] = sum / K;
    }
}
template <class M> Me<M> measures4(const Ce<M>& c, const M& m) {
    Me<M> o(m);
    edges(m, o);
    for (size_t i = 0; i < m.template getElements<2>().size(); ++i) {
        const auto& el = m.template getElements<2>()[i];
        typename info<M>::real sum = 0;
        const auto& at = m.template getElements<2>()[el.getIndex()].getSubelements();
        for (size_t k = 0; k < at.size(); ++k) sum += pyramid<2>(m, c, o, el.getIndex(), at[k]);
        o.template getDataByDim<2>()[el.getIndex()] = sum / 2;
    }
    for (size_t i = 0; i < m.template getElements<3>().size(); ++i) {
        const auto& el = m.template getElements<3>()[i];
        typename info<M>::real sum = 0;
        const auto& at = m.template getElements<3>()[el.getIndex()].getSubelements();
        for (size_t k = 0; k < at.size(); ++k) sum += pyramid<3>(m, c, o, el.getIndex(), at[k]);
        o.template getDataByDim<3>()[el.getIndex()] = sum / 3;
    }
    for (size_t i = 0; i < m.getCells().size(); ++i) {
        typename info<M>::real sum = 0;
        size_t id = m.getCells()[i].getIndex();
        auto f = m.getCells()[id].getBoundaryElementIndex();
        do {
            sum += pyramid<4>(m, c, o, id, f);
            f = m.getFaces()[f].getNextBElem(id);
        } while (f != m.getCells()[id].getBoundaryElementIndex());
        o.template getDataByDim<4>()[id] = sum / 4;
    }
    return o;
}
#define W(M, NAME, CALL, REF) \
EX void CAT(w_impl_##NAME, M)(const M& m, Me<M>* o) { new (o) Me<M>(CALL(m)); } \
EX void CAT(w_spec_##NAME, M)(const M& m, Me<M>* o) { new (o) Me<M>(REF(m)); }
//@ section polygon std=vector
W(D2, default_, computeMeasures<METHOD_DEFAULT>, measures2)
W(D2, tessellated_, computeMeasures<METHOD_TESSELLATED>, measures2)
//@ section polygon_float std=vector float
W(F2, default_, computeMeasures<METHOD_DEFAULT>, measures2)
//@ section polyhedron_default std=vector
W(D3, default_, computeMeasures<METHOD_DEFAULT>, measures3)
W(V3, default_, computeMeasures<METHOD_DEFAULT>, measures3)
//@ section polyhedron_tessellated std=vector
W(D3, tessellated_, computeMeasures<METHOD_TESSELLATED>, tessellated3)
W(V3, tessellated_, computeMeasures<METHOD_TESSELLATED>, tessellated3)
//@ section higher_dimension std=vector
EX void w_impl_d4(const Ce<D4>& R c, const D4& R m, Me<D4>* o) { new (o) Me<D4>(computeMeasures<METHOD_DEFAULT>(c, m)); }
EX void w_spec_d4(const Ce<D4>& R c, const D4& R m, Me<D4>* o) { new (o) Me<D4>(measures4(c, m)); }
//@ section mesh_member std=vector
/* the mesh's own member computes the measures of this mesh with the asked method */
EX void w_impl_dm(const D3& m, Me<D3>* o) { new (o) Me<D3>(m.computeElementMeasures()); }
EX void w_spec_dm(const D3& m, Me<D3>* o) { new (o) Me<D3>(computeMeasures<METHOD_DEFAULT>(m)); }
EX void w_impl_tm(const D3& m, Me<D3>* o) { new (o) Me<D3>(m.computeElementMeasures<METHOD_TESSELLATED>()); }
EX void w_spec_tm(const D3& m, Me<D3>* o) { new (o) Me<D3>(computeMeasures<METHOD_TESSELLATED>(m)); }
