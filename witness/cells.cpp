//@ preamble
#define UNDEBUG
#define MS_NO_FAILURE true
#include "model_stream.h"
#define MV_TERM
#include "model_vector.h"
#include "model_map.h"
#include <GTMesh/UnstructuredMesh/MeshIO/MeshNativeType.h>
// the order of the vertices of every kind of cell, over the order around one face of it;
// a mesh of cells of one KIND at a time
using E3 = MeshNativeType<3>::ElementType;
extern "C" void kind_added(const void* to, size_t at, E3 k);
constexpr E3 the_kind = E3::KIND;
namespace std {
template <> class model_vector<E3> {
    size_t n = 0;
public:
    using value_type = E3;
    using iterator = const E3*;
    using const_iterator = const E3*;
    size_t size() const { return n; }
    void clear() { n = 0; }
    void resize(size_t m) { n = m; }
    const E3& at(size_t) const { return the_kind; }
    const E3& operator[](size_t) const { return the_kind; }
    E3& at(size_t) { return const_cast<E3&>(the_kind); }
    E3& operator[](size_t) { return const_cast<E3&>(the_kind); }
    void push_back(E3 k) { kind_added(this, n++, k); }
    void emplace_back(E3 k) { push_back(k); }
    void reserve(size_t) {}
};
}
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h>
#define EX extern "C"
#define R __restrict
using M2 = UnstructuredMesh<2, size_t, double>;
using F2 = UnstructuredMesh<2, unsigned long long, float>;
using M3 = UnstructuredMesh<3, size_t, double>;
using F3 = UnstructuredMesh<3, unsigned long long, float, 6>;
template <class M> struct info;
template <unsigned D, class I, class T, unsigned... Rs> struct info<UnstructuredMesh<D, I, T, Rs...>> {
    static constexpr unsigned dim = D;
    using index = I;
    using real = T;
};
#define I_ typename info<M>::index
#define T_ typename info<M>::real
#define EACH(N) N(M3) N(F3)
using Types = MeshDataContainer<E3, 3>;
using Ori = MeshDataContainer<std::vector<bool>, 2>;
template <class M> using Writer = VTKMeshWriter<3, typename info<M>::index, typename info<M>::real>;
// is a number among those of a list
struct by_flag { template <class I> static bool has(const std::vector<I>& v, I x) { bool none = true; for (I i : v) if (i == x) none = false; return !none; } };
struct by_found { template <class I> static bool has(const std::vector<I>& v, I x) { bool r = false; for (I i : v) if (i == x) r = true; return r; } };
struct by_first { template <class I> static bool has(const std::vector<I>& v, I x) { for (I i : v) if (i == x) return true; return false; } };
// the base, then the vertices that are not on it
template <class H, class M> void cone(Writer<M>& w, M& m, typename M::Cell& c, typename M::Face& f, Ori& ori, std::vector<I_>& v) {
    w.indexFace(m, f, c, ori, v);
    MeshApply<3, 0>::apply(c.getIndex(), m, [&](I_, I_ x) { if (!H::has(v, x)) v.push_back(x); });
}
// the base, then the vertices above: the other ends of the edges that leave the base
template <class H, class M> void prism(Writer<M>& w, M& m, typename M::Cell& c, typename M::Face& f, Ori& ori, std::vector<I_>& v) {
    w.indexFace(m, f, c, ori, v);
    const I_ n = v.size();
    for (I_ k = 0; k < n; ++k) {
        const I_ from = v[k];
        MeshApply<3, 1>::apply(c.getIndex(), m, [&](I_, I_ e) {
            auto& edge = m.getEdges()[e];
            if (edge.getVertexAIndex() == from && !H::has(v, edge.getVertexBIndex())) v.push_back(edge.getVertexBIndex());
            if (edge.getVertexBIndex() == from && !H::has(v, edge.getVertexAIndex())) v.push_back(edge.getVertexAIndex());
        });
    }
}
// PUT: how the place of a centre is remembered; MAKE: how the list of a tetrahedron is made
template <class H, int PUT = 0, int MAKE = 0, class M> void index(Writer<M>& w, M& m, const Types& t) {
    auto& cells = w.cellVert.template getDataByPos<0>();
    auto& types = w.cellTypes.template getDataByPos<0>();
    w.appendedVertices.clear();
    cells.clear();
    w.backwardCellIndexMapping.clear();
    types.clear();
    auto ori = edgesOrientation(m);
    std::map<I_, I_> centre;
    std::vector<I_> v;
    for (auto c : m.getCells()) {
        v.clear();
        const E3 kind = t.at(c);
        if (kind == E3::TETRA) cone<H>(w, m, c, m.getFaces()[c.getBoundaryElementIndex()], ori, v);
        else if (kind == E3::PYRAMID) {
            typename M::Face* base = nullptr;
            MeshApply<3, 2>::apply(c.getIndex(), m, [&](I_, I_ i) { if (m.getFaces()[i].getSubelements().getNumberOfSubElements() > 3) base = &m.getFaces()[i]; });
            cone<H>(w, m, c, *base, ori, v);
        } else if (kind == E3::WEDGE) {
            typename M::Face* base = nullptr;
            MeshApply<3, 2>::apply(c.getIndex(), m, [&](I_, I_ i) { if (!base && m.getFaces()[i].getSubelements().getNumberOfSubElements() == 3) base = &m.getFaces()[i]; });
            prism<H>(w, m, c, *base, ori, v);
        } else if (kind == E3::HEXAHEDRON) prism<H>(w, m, c, m.getFaces()[c.getBoundaryElementIndex()], ori, v);
        else {
            const I_ top = w.appendedVertices.size() + m.getVertices().size();
            w.appendedVertices.push_back(c.getCenter());
            I_ i = c.getBoundaryElementIndex();
            do {
                auto& f = m.getFaces()[i];
                for (auto& e : f.getSubelements()) {
                    auto& edge = m.getEdges()[e];
                    if (MAKE == 0) {
                        v.clear();
                        v.push_back(edge.getVertexAIndex());
                        v.push_back(edge.getVertexBIndex());
                    }
                    auto known = centre.find(f.getIndex());
                    I_ mid;
                    if (known == centre.end()) {
                        mid = w.appendedVertices.size() + m.getVertices().size();
                        if (PUT == 0) centre[f.getIndex()] = mid;
                        else centre.emplace(f.getIndex(), mid);
                        w.appendedVertices.push_back(f.getCenter());
                    } else mid = known->second;
                    if (MAKE == 0) {
                        v.push_back(mid);
                        v.push_back(top);
                    } else if (MAKE == 1)
                        v = {edge.getVertexAIndex(), edge.getVertexBIndex(), mid, top};
                    w.backwardCellIndexMapping[cells.size()] = c.getIndex();
                    if (MAKE == 2) cells.push_back({edge.getVertexAIndex(), edge.getVertexBIndex(), mid, top});
                    else cells.push_back(v);
                    types.push_back(E3::TETRA);
                }
                i = f.getNextBElem(c.getIndex());
            } while (i != c.getBoundaryElementIndex());
            continue;
        }
        cells.push_back(v);
        types.push_back(kind);
    }
    I_ n = 0;
    for (auto& x : cells) n += x.size() + 1;
    w.totalNumberOfWrittenElements = int(n);
}
//@ section vtk3_tetra noheap argmem=@(ms_|kind_added).*$;;@MeshConnections<.*>::connections;;@edgesOrientation.*;;@VTKMeshWriter<.*>::indexFace opaque=@edgesOrientation.*;;@MeshConnections<.*>::connections;;@VTKMeshWriter<.*>::indexFace pure=@MeshConnections<.*>::connections flags=-DKIND=TETRA
#define N(M) \
EX void w_impl_cells##M(Writer<M>& R w, M& R m, Types& R t) { w.indexMesh(m, t); } \
EX void w_spec_cells##M(Writer<M>& R w, M& R m, Types& R t) { Types u = t; index<by_flag>(w, m, u); } \
EX void w_spec2_cells##M(Writer<M>& R w, M& R m, Types& R t) { Types u = t; index<by_found>(w, m, u); } \
EX void w_spec3_cells##M(Writer<M>& R w, M& R m, Types& R t) { Types u = t; index<by_first>(w, m, u); }
EACH(N)
//@ section vtk3_pyramid noheap argmem=@(ms_|kind_added).*$;;@MeshConnections<.*>::connections;;@edgesOrientation.*;;@VTKMeshWriter<.*>::indexFace opaque=@edgesOrientation.*;;@MeshConnections<.*>::connections;;@VTKMeshWriter<.*>::indexFace pure=@MeshConnections<.*>::connections flags=-DKIND=PYRAMID
#define N(M) \
EX void w_impl_cells##M(Writer<M>& R w, M& R m, Types& R t) { w.indexMesh(m, t); } \
EX void w_spec_cells##M(Writer<M>& R w, M& R m, Types& R t) { Types u = t; index<by_flag>(w, m, u); } \
EX void w_spec2_cells##M(Writer<M>& R w, M& R m, Types& R t) { Types u = t; index<by_found>(w, m, u); } \
EX void w_spec3_cells##M(Writer<M>& R w, M& R m, Types& R t) { Types u = t; index<by_first>(w, m, u); }
EACH(N)
//@ section vtk3_wedge noheap argmem=@(ms_|kind_added).*$;;@MeshConnections<.*>::connections;;@edgesOrientation.*;;@VTKMeshWriter<.*>::indexFace opaque=@edgesOrientation.*;;@MeshConnections<.*>::connections;;@VTKMeshWriter<.*>::indexFace pure=@MeshConnections<.*>::connections flags=-DKIND=WEDGE
#define N(M) \
EX void w_impl_cells##M(Writer<M>& R w, M& R m, Types& R t) { w.indexMesh(m, t); } \
EX void w_spec_cells##M(Writer<M>& R w, M& R m, Types& R t) { Types u = t; index<by_flag>(w, m, u); } \
EX void w_spec2_cells##M(Writer<M>& R w, M& R m, Types& R t) { Types u = t; index<by_found>(w, m, u); } \
EX void w_spec3_cells##M(Writer<M>& R w, M& R m, Types& R t) { Types u = t; index<by_first>(w, m, u); }
EACH(N)
//@ section vtk3_hexahedron noheap argmem=@(ms_|kind_added).*$;;@MeshConnections<.*>::connections;;@edgesOrientation.*;;@VTKMeshWriter<.*>::indexFace opaque=@edgesOrientation.*;;@MeshConnections<.*>::connections;;@VTKMeshWriter<.*>::indexFace pure=@MeshConnections<.*>::connections flags=-DKIND=HEXAHEDRON
#define N(M) \
EX void w_impl_cells##M(Writer<M>& R w, M& R m, Types& R t) { w.indexMesh(m, t); } \
EX void w_spec_cells##M(Writer<M>& R w, M& R m, Types& R t) { Types u = t; index<by_flag>(w, m, u); } \
EX void w_spec2_cells##M(Writer<M>& R w, M& R m, Types& R t) { Types u = t; index<by_found>(w, m, u); } \
EX void w_spec3_cells##M(Writer<M>& R w, M& R m, Types& R t) { Types u = t; index<by_first>(w, m, u); }
EACH(N)
//@ section vtk3_polyhedron noheap argmem=@(ms_|kind_added).*$;;@MeshConnections<.*>::connections;;@edgesOrientation.*;;@VTKMeshWriter<.*>::indexFace opaque=@edgesOrientation.*;;@MeshConnections<.*>::connections;;@VTKMeshWriter<.*>::indexFace pure=@MeshConnections<.*>::connections flags=-DKIND=POLYHEDRON
#define N(M) \
EX void w_impl_cells##M(Writer<M>& R w, M& R m, Types& R t) { w.indexMesh(m, t); } \
EX void w_spec_cells##M(Writer<M>& R w, M& R m, Types& R t) { Types u = t; index<by_flag, 0, 0>(w, m, u); } \
EX void w_spec2_cells##M(Writer<M>& R w, M& R m, Types& R t) { Types u = t; index<by_flag, 1, 0>(w, m, u); } \
EX void w_spec3_cells##M(Writer<M>& R w, M& R m, Types& R t) { Types u = t; index<by_flag, 0, 1>(w, m, u); } \
EX void w_spec4_cells##M(Writer<M>& R w, M& R m, Types& R t) { Types u = t; index<by_flag, 0, 2>(w, m, u); } \
EX void w_spec5_cells##M(Writer<M>& R w, M& R m, Types& R t) { Types u = t; index<by_flag, 1, 1>(w, m, u); } \
EX void w_spec6_cells##M(Writer<M>& R w, M& R m, Types& R t) { Types u = t; index<by_flag, 1, 2>(w, m, u); }
EACH(N)
