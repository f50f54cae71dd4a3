//@ preamble
#include "meshref.h"
#include <GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h>
#include <GTMesh/UnstructuredMesh/MeshFunctions/CellsDistance.h>
using namespace ref;
using D2 = UnstructuredMesh<2, size_t, double>;
using F2 = UnstructuredMesh<2, unsigned int, float>;
using D3 = UnstructuredMesh<3, size_t, double, 6>;
using V3 = UnstructuredMesh<3, size_t, double>;
template <class M> using No = Normals<info<M>::dim, typename info<M>::real>;
template <class M> using Di = MeshDataContainer<typename info<M>::real, info<M>::dim - 1>;
// the point that stands for one side of a face; a face without any cell is skipped
template <class M, class F, class I> typename info<M>::pt open(const M& m, const F& f, I c) {
    return invalid(c) ? f.getCenter() : m.getCells()[c].getCenter();
}
template <class M, class F, class I> typename info<M>::pt closed(const M& m, const F&, I c) {
    return boundary(c) ? m.getBoundaryCells()[c & (I(~I(0)) >> 1)].getCenter() : m.getCells()[c].getCenter();
}
template <class M, class F, class I> typename info<M>::pt side(const M& m, const F& f, I c) {
    return m.getBoundaryCells().empty() ? open(m, f, c) : closed(m, f, c);
}
template <class M, class F> bool lone(const M&, const F& f) { return invalid(f.getCellLeftIndex()) && invalid(f.getCellRightIndex()); }
template <class M, class F> bool skip(const M& m, const F& f) { return m.getBoundaryCells().empty() && lone(m, f); }
template <class M> No<M> vectors(const M& m) {
    No<M> o(m);
    if (m.getBoundaryCells().empty()) {
        for (size_t i = 0; i < m.getFaces().size(); ++i) {
            const auto& f = m.getFaces()[i];
            if (!lone(m, f)) o.template getDataByPos<0>()[f.getIndex()] = open(m, f, f.getCellRightIndex()) - open(m, f, f.getCellLeftIndex());
        }
    } else {
        for (size_t i = 0; i < m.getFaces().size(); ++i) {
            const auto& f = m.getFaces()[i];
            o.template getDataByPos<0>()[f.getIndex()] = closed(m, f, f.getCellRightIndex()) - closed(m, f, f.getCellLeftIndex());
        }
    }
    return o;
}
template <class M> Di<M> distances(const M& m) {
    Di<M> o(m);
    if (m.getBoundaryCells().empty()) {
        for (size_t i = 0; i < m.getFaces().size(); ++i) {
            const auto& f = m.getFaces()[i];
            if (!lone(m, f)) o.template getDataByPos<0>()[f.getIndex()] = length<info<M>::dim, typename info<M>::real>(open(m, f, f.getCellRightIndex()) - open(m, f, f.getCellLeftIndex()));
        }
    } else {
        for (size_t i = 0; i < m.getFaces().size(); ++i) {
            const auto& f = m.getFaces()[i];
            o.template getDataByPos<0>()[f.getIndex()] = length<info<M>::dim, typename info<M>::real>(closed(m, f, f.getCellRightIndex()) - closed(m, f, f.getCellLeftIndex()));
        }
    }
    return o;
}
// the same with the choice inside one loop
template <class M> No<M> vectors1(const M& m) {
    No<M> o(m);
    for (size_t i = 0; i < m.getFaces().size(); ++i) {
        const auto& f = m.getFaces()[i];
        if (!skip(m, f)) o.template getDataByPos<0>()[f.getIndex()] = side(m, f, f.getCellRightIndex()) - side(m, f, f.getCellLeftIndex());
    }
    return o;
}
template <class M> Di<M> distances1(const M& m) {
    Di<M> o(m);
    for (size_t i = 0; i < m.getFaces().size(); ++i) {
        const auto& f = m.getFaces()[i];
        if (!skip(m, f)) o.template getDataByPos<0>()[f.getIndex()] = length<info<M>::dim, typename info<M>::real>(side(m, f, f.getCellRightIndex()) - side(m, f, f.getCellLeftIndex()));
    }
    return o;
}
#define W(M) \
EX void CAT(w_impl_vec, M)(const M& m, No<M>* o) { new (o) No<M>(computeCellsCenterDifference(m)); } \
EX void CAT(w_spec_vec, M)(const M& m, No<M>* o) { new (o) No<M>(vectors(m)); } \
EX void CAT(w_spec2_vec, M)(const M& m, No<M>* o) { new (o) No<M>(vectors1(m)); } \
EX void CAT(w_impl_dist, M)(const M& m, Di<M>* o) { new (o) Di<M>(computeCellsDistance(m)); } \
EX void CAT(w_spec_dist, M)(const M& m, Di<M>* o) { new (o) Di<M>(distances(m)); } \
EX void CAT(w_spec2_dist, M)(const M& m, Di<M>* o) { new (o) Di<M>(distances1(m)); }
//@ section planar std=vector
W(D2)
//@ section planar_float std=vector float
W(F2)
//@ section polyhedral std=vector
W(D3) W(V3)
