//@ preamble
#include "meshref.h"
using namespace ref;
using D2 = UnstructuredMesh<2, size_t, double>;
using F2 = UnstructuredMesh<2, unsigned int, float>;
using D3 = UnstructuredMesh<3, size_t, double, 6>;
using V3 = UnstructuredMesh<3, size_t, double>;
using F3 = UnstructuredMesh<3, unsigned int, float, 8>;
using D4 = UnstructuredMesh<4, size_t, double, 6, 6>;
template <class M> void edges(const M& m, Centers<info<M>::dim, typename info<M>::real>& c) {
    for (size_t i = 0; i < m.getEdges().size(); ++i) {
        const auto& e = m.getEdges()[i];
        c.template getDataByDim<1>()[i] = (m.getVertices()[e.getVertexAIndex()] + m.getVertices()[e.getVertexBIndex()]) * 0.5;
    }
}
// FORM & 1: the sum is held in a local point; FORM & 2: the parts are counted with an integer
template <int FORM, class T> using Count = typename std::conditional<(FORM & 2) != 0, size_t, T>::type;
template <unsigned K, int FORM, class M> void inner(const M& m, Centers<info<M>::dim, typename info<M>::real>& c) {
    constexpr bool LOCAL = FORM & 1;
    auto& out = c.template getDataByDim<K>();
    auto& in = c.template getDataByDim<K - 1>();
    for (size_t i = 0; i < m.template getElements<K>().size(); ++i) {
        Count<FORM, typename info<M>::real> n = 0;
        const auto& se = m.template getElements<K>()[i].getSubelements();
        typename info<M>::pt s = {};
        for (size_t k = 0; k < se.size(); ++k) {
            (LOCAL ? s : out[i]) += in[se[k]];
            n++;
        }
        if (LOCAL) out[i] = s;
        out[i] /= static_cast<typename info<M>::real>(n);
    }
}
template <int FORM, class M> void cells(const M& m, Centers<info<M>::dim, typename info<M>::real>& c) {
    constexpr bool LOCAL = FORM & 1;
    constexpr unsigned D = info<M>::dim;
    auto& out = c.template getDataByDim<D>();
    auto& in = c.template getDataByDim<D - 1>();
    for (size_t i = 0; i < m.getCells().size(); ++i) {
        Count<FORM, typename info<M>::real> n = 0;
        typename info<M>::pt s = {};
        auto first = m.getCells()[i].getBoundaryElementIndex();
        auto f = first;
        do {
            (LOCAL ? s : out[i]) += in[f];
            n++;
            f = m.getFaces()[f].getNextBElem(i);
        } while (f != m.getCells()[i].getBoundaryElementIndex());
        if (LOCAL) out[i] = s;
        out[i] /= static_cast<typename info<M>::real>(n);
    }
}
template <int A, int B, class M> Centers<2, typename info<M>::real> centers2(const M& m) {
    Centers<2, typename info<M>::real> c(m);
    edges(m, c);
    cells<B>(m, c);
    return c;
}
template <int A, int B, class M> Centers<3, typename info<M>::real> centers3(const M& m) {
    Centers<3, typename info<M>::real> c(m);
    edges(m, c);
    inner<2, A>(m, c);
    cells<B>(m, c);
    return c;
}
template <int A, int B, class M> Centers<4, typename info<M>::real> centers4(const M& m) {
    Centers<4, typename info<M>::real> c(m);
    edges(m, c);
    inner<2, A>(m, c);
    inner<3, A>(m, c);
    cells<B>(m, c);
    return c;
}
template <int A, int B, class M> Centers<3, typename info<M>::real> tessellated(const M& m) {
    constexpr bool LOCAL = A & 1;
    using T = typename info<M>::real;
    Centers<3, T> c(m);
    edges(m, c);
    auto& out = c.template getDataByDim<2>();
    auto& in = c.template getDataByDim<1>();
    for (size_t i = 0; i < m.getFaces().size(); ++i) {
        Count<A, T> n = 0;
        const auto& se = m.getFaces()[i].getSubelements();
        Pt<3, T> s = {};
        for (size_t k = 0; k < se.size(); ++k) {
            (LOCAL ? s : out[i]) += in[se[k]];
            n++;
        }
        (LOCAL ? s : out[i]) /= static_cast<T>(n);
        Pt<3, T> w = {};
        T area = 0;
        for (size_t k = 0; k < se.size(); ++k) {
            const auto& e = m.getEdges()[se[k]];
            const Pt<3, T>& mid = LOCAL ? s : out[i];
            std::array<Pt<3, T>, 2> v = {mid - m.getVertices()[e.getVertexAIndex()], mid - m.getVertices()[e.getVertexBIndex()]};
            std::array<T, 2> nn;
            ortho<3, T, 2>(v, nn);
            T tri = nn[0] * nn[1] * 0.5;
            for (int d = 0; d < 3; ++d) w[d] += in[se[k]][d] * tri * (2.0 / 3.0);
            area += tri;
        }
        for (int d = 0; d < 3; ++d) out[i][d] = (LOCAL ? s : out[i])[d] / 3.0 + w[d] / area;
    }
    cells<B>(m, c);
    return c;
}
//@ section default_2d std=vector
#define W(M) \
EX void CAT(w_impl_, M)(const M& m, Centers<2, info<M>::real>* o) { new (o) Centers<2, info<M>::real>(computeCenters<METHOD_DEFAULT>(m)); } \
EX void CAT(w_spec_, M)(const M& m, Centers<2, info<M>::real>* o) { new (o) Centers<2, info<M>::real>(centers2<0, 0>(m)); } \
EX void CAT(w_spec2_, M)(const M& m, Centers<2, info<M>::real>* o) { new (o) Centers<2, info<M>::real>(centers2<0, 1>(m)); } \
EX void CAT(w_spec3_, M)(const M& m, Centers<2, info<M>::real>* o) { new (o) Centers<2, info<M>::real>(centers2<0, 2>(m)); } \
EX void CAT(w_spec4_, M)(const M& m, Centers<2, info<M>::real>* o) { new (o) Centers<2, info<M>::real>(centers2<0, 3>(m)); }
W(D2)
//@ section default_2d_float std=vector float
#define W(M) \
EX void CAT(w_impl_, M)(const M& m, Centers<2, info<M>::real>* o) { new (o) Centers<2, info<M>::real>(computeCenters<METHOD_DEFAULT>(m)); } \
EX void CAT(w_spec_, M)(const M& m, Centers<2, info<M>::real>* o) { new (o) Centers<2, info<M>::real>(centers2<0, 0>(m)); } \
EX void CAT(w_spec2_, M)(const M& m, Centers<2, info<M>::real>* o) { new (o) Centers<2, info<M>::real>(centers2<0, 1>(m)); } \
EX void CAT(w_spec3_, M)(const M& m, Centers<2, info<M>::real>* o) { new (o) Centers<2, info<M>::real>(centers2<0, 2>(m)); } \
EX void CAT(w_spec4_, M)(const M& m, Centers<2, info<M>::real>* o) { new (o) Centers<2, info<M>::real>(centers2<0, 3>(m)); }
W(F2)
//@ section default_3d std=vector
#define W(M) \
EX void CAT(w_impl_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(computeCenters<METHOD_DEFAULT>(m)); } \
EX void CAT(w_spec_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<0, 0>(m)); } \
EX void CAT(w_spec2_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<1, 1>(m)); } \
EX void CAT(w_spec3_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<2, 2>(m)); } \
EX void CAT(w_spec4_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<3, 3>(m)); } \
EX void CAT(w_spec5_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<0, 1>(m)); } \
EX void CAT(w_spec6_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<0, 2>(m)); } \
EX void CAT(w_spec7_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<0, 3>(m)); } \
EX void CAT(w_spec8_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<1, 0>(m)); } \
EX void CAT(w_spec9_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<1, 2>(m)); } \
EX void CAT(w_spec10_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<1, 3>(m)); } \
EX void CAT(w_spec11_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<2, 0>(m)); } \
EX void CAT(w_spec12_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<2, 1>(m)); } \
EX void CAT(w_spec13_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<2, 3>(m)); } \
EX void CAT(w_spec14_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<3, 0>(m)); } \
EX void CAT(w_spec15_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<3, 1>(m)); } \
EX void CAT(w_spec16_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<3, 2>(m)); }
W(D3) W(V3)
//@ section default_3d_float std=vector float
#define W(M) \
EX void CAT(w_impl_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(computeCenters<METHOD_DEFAULT>(m)); } \
EX void CAT(w_spec_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<0, 0>(m)); } \
EX void CAT(w_spec2_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<1, 1>(m)); } \
EX void CAT(w_spec3_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<2, 2>(m)); } \
EX void CAT(w_spec4_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<3, 3>(m)); } \
EX void CAT(w_spec5_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<0, 1>(m)); } \
EX void CAT(w_spec6_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<0, 2>(m)); } \
EX void CAT(w_spec7_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<0, 3>(m)); } \
EX void CAT(w_spec8_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<1, 0>(m)); } \
EX void CAT(w_spec9_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<1, 2>(m)); } \
EX void CAT(w_spec10_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<1, 3>(m)); } \
EX void CAT(w_spec11_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<2, 0>(m)); } \
EX void CAT(w_spec12_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<2, 1>(m)); } \
EX void CAT(w_spec13_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<2, 3>(m)); } \
EX void CAT(w_spec14_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<3, 0>(m)); } \
EX void CAT(w_spec15_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<3, 1>(m)); } \
EX void CAT(w_spec16_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(centers3<3, 2>(m)); }
W(F3)
//@ section default_4d std=vector
#define W(M) \
EX void CAT(w_impl_, M)(const M& m, Centers<4, info<M>::real>* o) { new (o) Centers<4, info<M>::real>(computeCenters<METHOD_DEFAULT>(m)); } \
EX void CAT(w_spec_, M)(const M& m, Centers<4, info<M>::real>* o) { new (o) Centers<4, info<M>::real>(centers4<0, 0>(m)); } \
EX void CAT(w_spec2_, M)(const M& m, Centers<4, info<M>::real>* o) { new (o) Centers<4, info<M>::real>(centers4<1, 1>(m)); } \
EX void CAT(w_spec3_, M)(const M& m, Centers<4, info<M>::real>* o) { new (o) Centers<4, info<M>::real>(centers4<2, 2>(m)); } \
EX void CAT(w_spec4_, M)(const M& m, Centers<4, info<M>::real>* o) { new (o) Centers<4, info<M>::real>(centers4<3, 3>(m)); } \
EX void CAT(w_spec5_, M)(const M& m, Centers<4, info<M>::real>* o) { new (o) Centers<4, info<M>::real>(centers4<0, 1>(m)); } \
EX void CAT(w_spec6_, M)(const M& m, Centers<4, info<M>::real>* o) { new (o) Centers<4, info<M>::real>(centers4<0, 2>(m)); } \
EX void CAT(w_spec7_, M)(const M& m, Centers<4, info<M>::real>* o) { new (o) Centers<4, info<M>::real>(centers4<0, 3>(m)); } \
EX void CAT(w_spec8_, M)(const M& m, Centers<4, info<M>::real>* o) { new (o) Centers<4, info<M>::real>(centers4<1, 0>(m)); } \
EX void CAT(w_spec9_, M)(const M& m, Centers<4, info<M>::real>* o) { new (o) Centers<4, info<M>::real>(centers4<1, 2>(m)); } \
EX void CAT(w_spec10_, M)(const M& m, Centers<4, info<M>::real>* o) { new (o) Centers<4, info<M>::real>(centers4<1, 3>(m)); } \
EX void CAT(w_spec11_, M)(const M& m, Centers<4, info<M>::real>* o) { new (o) Centers<4, info<M>::real>(centers4<2, 0>(m)); } \
EX void CAT(w_spec12_, M)(const M& m, Centers<4, info<M>::real>* o) { new (o) Centers<4, info<M>::real>(centers4<2, 1>(m)); } \
EX void CAT(w_spec13_, M)(const M& m, Centers<4, info<M>::real>* o) { new (o) Centers<4, info<M>::real>(centers4<2, 3>(m)); } \
EX void CAT(w_spec14_, M)(const M& m, Centers<4, info<M>::real>* o) { new (o) Centers<4, info<M>::real>(centers4<3, 0>(m)); } \
EX void CAT(w_spec15_, M)(const M& m, Centers<4, info<M>::real>* o) { new (o) Centers<4, info<M>::real>(centers4<3, 1>(m)); } \
EX void CAT(w_spec16_, M)(const M& m, Centers<4, info<M>::real>* o) { new (o) Centers<4, info<M>::real>(centers4<3, 2>(m)); }
W(D4)
//@ section tessellated_2d std=vector
#define W(M) \
EX void CAT(w_impl_, M)(const M& m, Centers<2, info<M>::real>* o) { new (o) Centers<2, info<M>::real>(computeCenters<METHOD_TESSELLATED>(m)); } \
EX void CAT(w_spec_, M)(const M& m, Centers<2, info<M>::real>* o) { new (o) Centers<2, info<M>::real>(centers2<0, 0>(m)); } \
EX void CAT(w_spec2_, M)(const M& m, Centers<2, info<M>::real>* o) { new (o) Centers<2, info<M>::real>(centers2<0, 1>(m)); } \
EX void CAT(w_spec3_, M)(const M& m, Centers<2, info<M>::real>* o) { new (o) Centers<2, info<M>::real>(centers2<0, 2>(m)); } \
EX void CAT(w_spec4_, M)(const M& m, Centers<2, info<M>::real>* o) { new (o) Centers<2, info<M>::real>(centers2<0, 3>(m)); }
W(D2)
//@ section tessellated_3d std=vector
#define W(M) \
EX void CAT(w_impl_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(computeCenters<METHOD_TESSELLATED>(m)); } \
EX void CAT(w_spec_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(tessellated<0, 0>(m)); } \
EX void CAT(w_spec2_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(tessellated<1, 1>(m)); } \
EX void CAT(w_spec3_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(tessellated<2, 2>(m)); } \
EX void CAT(w_spec4_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(tessellated<3, 3>(m)); } \
EX void CAT(w_spec5_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(tessellated<0, 1>(m)); } \
EX void CAT(w_spec6_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(tessellated<0, 2>(m)); } \
EX void CAT(w_spec7_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(tessellated<0, 3>(m)); } \
EX void CAT(w_spec8_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(tessellated<1, 0>(m)); } \
EX void CAT(w_spec9_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(tessellated<1, 2>(m)); } \
EX void CAT(w_spec10_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(tessellated<1, 3>(m)); } \
EX void CAT(w_spec11_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(tessellated<2, 0>(m)); } \
EX void CAT(w_spec12_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(tessellated<2, 1>(m)); } \
EX void CAT(w_spec13_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(tessellated<2, 3>(m)); } \
EX void CAT(w_spec14_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(tessellated<3, 0>(m)); } \
EX void CAT(w_spec15_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(tessellated<3, 1>(m)); } \
EX void CAT(w_spec16_, M)(const M& m, Centers<3, info<M>::real>* o) { new (o) Centers<3, info<M>::real>(tessellated<3, 2>(m)); }
W(D3) W(V3)
//@ section initialisation std=vector
/* the centers of the mesh' own cells and faces come from that computation */
#define W(M) \
EX void CAT(w_impl_init, M)(M& R m) { m.initializeCenters(); } \
EX void CAT(w_spec_init, M)(M& R m) { \
    auto c = computeCenters<METHOD_DEFAULT>(m); \
    for (size_t i = 0; i < m.getFaces().size(); ++i) m.getFaces()[i].setCenter(c.template getDataByDim<info<M>::dim - 1>()[m.getFaces()[i].getIndex()]); \
    for (size_t i = 0; i < m.getCells().size(); ++i) m.getCells()[i].setCenter(c.template getDataByDim<info<M>::dim>()[m.getCells()[i].getIndex()]); }
W(D2) W(D3)
#define W2(M) \
EX void CAT(w_impl_initt, M)(M& R m) { m.template initializeCenters<METHOD_TESSELLATED>(); } \
EX void CAT(w_spec_initt, M)(M& R m) { \
    auto c = computeCenters<METHOD_TESSELLATED>(m); \
    for (size_t i = 0; i < m.getFaces().size(); ++i) m.getFaces()[i].setCenter(c.template getDataByDim<info<M>::dim - 1>()[m.getFaces()[i].getIndex()]); \
    for (size_t i = 0; i < m.getCells().size(); ++i) m.getCells()[i].setCenter(c.template getDataByDim<info<M>::dim>()[m.getCells()[i].getIndex()]); }
W2(D3)
//@ section given_centers std=vector
#define W(M) \
EX void CAT(w_impl_given, M)(M& R m, const Centers<info<M>::dim, info<M>::real>& R c) { m.initializeCenters(c); } \
EX void CAT(w_spec_given, M)(M& R m, const Centers<info<M>::dim, info<M>::real>& R c) { \
    for (size_t i = 0; i < m.getFaces().size(); ++i) m.getFaces()[i].setCenter(c.template getDataByDim<info<M>::dim - 1>()[m.getFaces()[i].getIndex()]); \
    for (size_t i = 0; i < m.getCells().size(); ++i) m.getCells()[i].setCenter(c.template getDataByDim<info<M>::dim>()[m.getCells()[i].getIndex()]); }
W(D2) W(D3)
//@ section boundary_centers std=vector
#define W(M) \
EX void CAT(w_impl_bc, M)(M& R m) { m.setupBoundaryCellsCenters(); } \
EX void CAT(w_spec_bc, M)(M& R m) { \
    for (size_t i = 0; i < m.getBoundaryCells().size(); ++i) m.getBoundaryCells()[i].getCenter() = m.getFaces()[m.getBoundaryCells()[i].getBoundaryElementIndex()].getCenter(); }
W(D2) W(D3)
