//@ preamble
#include "meshref.h"
#include <GTMesh/UnstructuredMesh/MeshFunctions/EdgesOrientation.h>
using namespace ref;
using D2 = UnstructuredMesh<2, size_t, double>;
using F2 = UnstructuredMesh<2, unsigned int, float>;
using D3 = UnstructuredMesh<3, size_t, double, 6>;
using V3 = UnstructuredMesh<3, size_t, double>;
using D4 = UnstructuredMesh<4, size_t, double, 6, 6>;
template <class M> using No = Normals<info<M>::dim, typename info<M>::real>;
template <class M> using Ce = Centers<info<M>::dim, typename info<M>::real>;
// an edge's direction A -> B turned clockwise, normalised
// an element is named by its own index or by its place in the list, which agree in every mesh
template <bool POS, class M> No<M> normals2(const M& m) {
    using T = typename info<M>::real;
    No<M> o(m);
    for (size_t i = 0; i < m.getEdges().size(); ++i) {
        const auto& e = m.getEdges()[i];
        Pt<2, T> d = m.getVertices()[e.getVertexBIndex()] - m.getVertices()[e.getVertexAIndex()];
        T n = length<2, T>(d);
        o.template getDataByPos<0>()[POS ? i : size_t(e.getIndex())][0] = d[1] / n;
        o.template getDataByPos<0>()[POS ? i : size_t(e.getIndex())][1] = -d[0] / n;
    }
    return o;
}
// the cell a face is oriented by: the left one, or the right one with the opposite sign
template <class F> bool fromLeft(const F& f) { return !(invalid(f.getCellLeftIndex()) || boundary(f.getCellLeftIndex())); }
template <bool POS, class M> No<M> normals3(const M& m) {
    using T = typename info<M>::real;
    No<M> o(m);
    for (size_t i = 0; i < m.getFaces().size(); ++i) {
        const auto& f = m.getFaces()[i];
        T sign = fromLeft(f) ? 1 : -1;
        const auto& cc = m.getCells()[fromLeft(f) ? f.getCellLeftIndex() : f.getCellRightIndex()].getCenter();
        const auto& e = m.getEdges()[f.getSubelements()[0]];
        const auto& a = m.getVertices()[e.getVertexAIndex()];
        const auto& b = m.getVertices()[e.getVertexBIndex()];
        std::array<Pt<3, T>, 3> v = {f.getCenter() - a, f.getCenter() - b, f.getCenter() - cc};
        std::array<T, 3> n;
        ortho<3, T, 3>(v, n);
        for (int d = 0; d < 3; ++d) o.template getDataByPos<0>()[POS ? i : size_t(f.getIndex())][d] = sign * v[2][d];
    }
    return o;
}
template <bool POS, bool AT, class M> No<M> tessellated(const M& m) {
    using T = typename info<M>::real;
    No<M> o(m);
    for (size_t i = 0; i < m.getFaces().size(); ++i) {
        const auto& f = m.getFaces()[i];
        const auto& cc = m.getCells()[fromLeft(f) ? f.getCellLeftIndex() : f.getCellRightIndex()].getCenter();
        Pt<3, T> sum = {};
        T area = 0;
        const auto& at = m.getFaces()[AT ? i : size_t(f.getIndex())].getSubelements();
        for (size_t k = 0; k < at.size(); ++k) {
            const auto& e = m.getEdges()[at[k]];
            std::array<Pt<3, T>, 3> v = {f.getCenter() - m.getVertices()[e.getVertexAIndex()], f.getCenter() - m.getVertices()[e.getVertexBIndex()], f.getCenter() - cc};
            std::array<T, 3> n;
            ortho<3, T, 3>(v, n);
            for (int d = 0; d < 3; ++d) sum[d] += v[2][d] * (n[0] * n[1] / 2);
            area += n[0] * n[1] / 2;
        }
        for (int d = 0; d < 3; ++d) o.template getDataByPos<0>()[POS ? i : size_t(f.getIndex())][d] = (fromLeft(f) ? T(1) : T(-1)) * sum[d] / area;
    }
    return o;
}
template <bool POS, class M> No<M> normals4(const Ce<M>& c, const M& m) {
    using T = typename info<M>::real;
    No<M> o(m);
    for (size_t i = 0; i < m.getFaces().size(); ++i) {
        const auto& f = m.getFaces()[i];
        T sign = fromLeft(f) ? 1 : -1;
        const auto& cc = c.template getDataByDim<4>()[fromLeft(f) ? f.getCellLeftIndex() : f.getCellRightIndex()];
        Pt<4, T> p[4];
        p[0] = c.template getDataByDim<3>()[POS ? i : size_t(f.getIndex())];
        size_t s = m.getFaces()[POS ? i : size_t(f.getIndex())].getSubelements()[0];
        p[1] = c.template getDataByDim<2>()[s];
        const auto& e = m.getEdges()[m.template getElements<2>()[s].getSubelements()[0]];
        p[2] = m.getVertices()[e.getVertexAIndex()];
        p[3] = m.getVertices()[e.getVertexBIndex()];
        std::array<Pt<4, T>, 4> v = {p[1] - p[0], p[2] - p[0], p[3] - p[0], cc - p[0]};
        std::array<T, 4> n;
        ortho<4, T, 4>(v, n);
        for (int d = 0; d < 4; ++d) o.template getDataByPos<0>()[POS ? i : size_t(f.getIndex())][d] = sign * v[3][d];
    }
    return o;
}
#define W(M, NAME, CALL, REF) \
EX void CAT(w_impl_##NAME, M)(const M& m, No<M>* o) { new (o) No<M>(CALL(m)); } \
EX void CAT(w_spec_##NAME, M)(const M& m, No<M>* o) { new (o) No<M>(REF<false>(m)); } \
EX void CAT(w_spec2_##NAME, M)(const M& m, No<M>* o) { new (o) No<M>(REF<true>(m)); }
#define WT(M, NAME, CALL) \
EX void CAT(w_impl_##NAME, M)(const M& m, No<M>* o) { new (o) No<M>(CALL(m)); } \
EX void CAT(w_spec_##NAME, M)(const M& m, No<M>* o) { new (o) No<M>(tessellated<false, false>(m)); } \
EX void CAT(w_spec2_##NAME, M)(const M& m, No<M>* o) { new (o) No<M>(tessellated<false, true>(m)); } \
EX void CAT(w_spec3_##NAME, M)(const M& m, No<M>* o) { new (o) No<M>(tessellated<true, true>(m)); } \
EX void CAT(w_spec4_##NAME, M)(const M& m, No<M>* o) { new (o) No<M>(tessellated<true, false>(m)); }
//@ section planar std=vector
W(D2, default_, computeFaceNormals<METHOD_DEFAULT>, normals2)
W(D2, tessellated_, computeFaceNormals<METHOD_TESSELLATED>, normals2)
//@ section planar_float std=vector float
W(F2, default_, computeFaceNormals<METHOD_DEFAULT>, normals2)
//@ section polyhedral std=vector
W(D3, default_, computeFaceNormals<METHOD_DEFAULT>, normals3)
W(V3, default_, computeFaceNormals<METHOD_DEFAULT>, normals3)
//@ section polyhedral_tessellated std=vector
WT(D3, tessellated_, computeFaceNormals<METHOD_TESSELLATED>)
WT(V3, tessellated_, computeFaceNormals<METHOD_TESSELLATED>)
//@ section higher_dimension std=vector
EX void w_impl_d4(const Ce<D4>& R c, const D4& R m, No<D4>* o) { new (o) No<D4>(computeFaceNormals<METHOD_DEFAULT>(c, m)); }
EX void w_spec_d4(const Ce<D4>& R c, const D4& R m, No<D4>* o) { new (o) No<D4>(normals4<false>(c, m)); }
EX void w_spec2_d4(const Ce<D4>& R c, const D4& R m, No<D4>* o) { new (o) No<D4>(normals4<true>(c, m)); }
//@ section mesh_member std=vector
EX void w_impl_dm(const D3& m, No<D3>* o) { new (o) No<D3>(m.computeFaceNormals()); }
EX void w_spec_dm(const D3& m, No<D3>* o) { new (o) No<D3>(computeFaceNormals<METHOD_DEFAULT>(m)); }
EX void w_impl_tm(const D3& m, No<D3>* o) { new (o) No<D3>(m.computeFaceNormals<METHOD_TESSELLATED>()); }
EX void w_spec_tm(const D3& m, No<D3>* o) { new (o) No<D3>(computeFaceNormals<METHOD_TESSELLATED>(m)); }
//@ section edge_side
/* an edge is on the left of a face when A -> B turns counter-clockwise around the face's center as seen along the normal */
using Fc2 = D2::ElementType<2>;
using Fc3 = D3::ElementType<2>;
EX bool w_impl_left2(D2& R m, Fc2& R f, D2::Edge& R e) { return edgeIsLeft(m, f, e); }
EX bool w_spec_left2(D2& R m, Fc2& R f, D2::Edge& R e) {
    auto a = m.getVertices()[e.getVertexAIndex()] - f.getCenter();
    auto b = m.getVertices()[e.getVertexBIndex()] - f.getCenter();
    return a[0] * b[1] - a[1] * b[0] > 0;
}
EX bool w_impl_left3(D3& R m, Fc3& R f, D3::Edge& R e, Pt<3, double>& R n) { return edgeIsLeft(m, f, e, n); }
EX bool w_spec_left3(D3& R m, Fc3& R f, D3::Edge& R e, Pt<3, double>& R n) {
    auto a = m.getVertices()[e.getVertexAIndex()] - f.getCenter();
    auto b = m.getVertices()[e.getVertexBIndex()] - f.getCenter();
    double det = (a[1] * b[2] - a[2] * b[1]) * n[0] + (a[2] * b[0] - a[0] * b[2]) * n[1] + (a[0] * b[1] - a[1] * b[0]) * n[2];
    return det > 0;
}
EX bool w_impl_left2i(D2& R m, size_t f, size_t e) { return edgeIsLeft(m, f, e); }
EX bool w_spec_left2i(D2& R m, size_t f, size_t e) { return edgeIsLeft(m, m.getCells()[f], m.getEdges()[e]); }
//@ section edge_orientations std=vector pure=@edgeIsLeft
// one flag per edge of a face, in the order of the face's list, by the normal of that face
using Fc3 = D3::ElementType<2>;
template <bool PUSH, class M> void orient(M& m, MeshDataContainer<std::vector<bool>, 2>& o) {
    auto n = computeFaceNormals<METHOD_DEFAULT>(m);
    for (size_t i = 0; i < m.getFaces().size(); ++i) {
        auto& f = m.getFaces()[i];
        auto& r = o.template getDataByPos<0>()[f.getIndex()];
        if (!PUSH) r.resize(f.getSubelements().size());
        for (size_t k = 0; k < f.getSubelements().size(); ++k) {
            bool left = edgeIsLeft(m, f, m.getEdges()[f.getSubelements()[k]], Vector<3, typename info<M>::real>(n.template getDataByPos<0>()[f.getIndex()]));
            if (PUSH) r.push_back(left); else r[k] = left;
        }
    }
}
#define N(M) \
EX void w_impl_orient##M(M& R m, MeshDataContainer<std::vector<bool>, 2>* R o) { new (o) MeshDataContainer<std::vector<bool>, 2>(edgesOrientation(m)); } \
EX void w_spec_orient##M(M& R m, MeshDataContainer<std::vector<bool>, 2>* R o) { orient<false>(m, *new (o) MeshDataContainer<std::vector<bool>, 2>(m)); } \
EX void w_spec2_orient##M(M& R m, MeshDataContainer<std::vector<bool>, 2>* R o) { MeshDataContainer<std::vector<bool>, 2> r(m); orient<false>(m, r); new (o) MeshDataContainer<std::vector<bool>, 2>(std::move(r)); } \
EX void w_spec3_orient##M(M& R m, MeshDataContainer<std::vector<bool>, 2>* R o) { orient<true>(m, *new (o) MeshDataContainer<std::vector<bool>, 2>(m)); } \
EX void w_spec4_orient##M(M& R m, MeshDataContainer<std::vector<bool>, 2>* R o) { MeshDataContainer<std::vector<bool>, 2> r(m); orient<true>(m, r); new (o) MeshDataContainer<std::vector<bool>, 2>(std::move(r)); }
N(D3) N(V3)
//@ section edge_side_index std=vector
EX bool w_impl_left3i(D3& R m, size_t f, size_t e) { return edgeIsLeft(m, f, e); }
EX bool w_spec_left3i(D3& R m, size_t f, size_t e) {
    auto n = computeFaceNormals<METHOD_DEFAULT>(m);
    auto& face = m.getFaces()[f];
    return edgeIsLeft(m, face, m.getEdges()[e], n[face]);
}
