//@ preamble
#define UNDEBUG
#define MS_NO_FAILURE true
#define MS_ONE_STREAM
#include "model_stream.h"
#define MV_TERM
#include "model_vector.h"
#include "model_map.h"
#include "model_errors.h"
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#define EX extern "C"
#define R __restrict
using M2 = UnstructuredMesh<2, size_t, double>;
using F2 = UnstructuredMesh<2, unsigned long long, float>;
using M3 = UnstructuredMesh<3, size_t, double>;
using F3 = UnstructuredMesh<3, unsigned long long, float, 6>;
template <class M> struct info;
template <unsigned D, class I, class T, unsigned... Rs> struct info<UnstructuredMesh<D, I, T, Rs...>> {
    static constexpr unsigned dim = D;
    using index = I;
    using real = T;
};
#define I_ typename info<M>::index
#define T_ typename info<M>::real
template <class I> std::string pair_key(I a, I b) { return a < b ? std::to_string(a) + ";" + std::to_string(b) : std::to_string(b) + ";" + std::to_string(a); }
// the same text put together from the smaller and the larger number
template <int V, class I> std::string key_of(I a, I b) {
    if (V == 0) return pair_key(a, b);
    const I low = std::min(a, b), high = std::max(a, b);
    return std::to_string(low) + ";" + std::to_string(high);
}
#define TABLES \
const std::map<const int, const std::pair<const std::vector<std::array<int, 2>>, const std::vector<std::vector<int>>>> tables{ \
    {4, {{{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}}, \
         {{0, 1, 2}, {0, 4, 3}, {1, 5, 4}, {3, 5, 2}}}}, \
    {8, {{{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 4}, {1, 5}, {2, 6}, {3, 7}, {4, 5}, {5, 6}, {6, 7}, {7, 4}}, \
         {{0, 1, 2, 3}, {4, 0, 5, 8}, {5, 1, 6, 9}, {6, 2, 7, 10}, {7, 3, 4, 11}, {8, 9, 10, 11}}}}, \
    {6, {{{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 4}, {2, 5}, {3, 5}, {5, 4}, {4, 3}}, \
         {{0, 2, 1}, {0, 4, 8, 3}, {1, 4, 7, 5}, {3, 5, 6, 2}, {6, 7, 8}}}}, \
    {5, {{{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 4}, {1, 4}, {2, 4}, {3, 4}}, \
         {{0, 1, 2, 3}, {0, 5, 4}, {1, 6, 5}, {2, 7, 6}, {3, 4, 7}}}}};
template <unsigned D> struct Maker {};
template <> struct Maker<3> { TABLES };
//@ section vtk2_points argmem=@ms_.*$
template <class M> void points2(std::istream& i, M& m) {
    I_ n;
    i >> n;
    T_ z = 0;
    m.getVertices().resize(n);
    i.ignore(20, '\n');
    for (I_ k = 0; k < n; ++k) {
        auto& v = m.getVertices()[k];
        v.setIndex(k);
        i >> v[0] >> v[1] >> z;
    }
}
#define N(M) \
EX void w_impl_points_##M(M& R m) { std::istream i(7); VTKMeshReader<2> r; r.loadVertices(i, m); } \
EX void w_spec_points_##M(M& R m) { std::istream i(7); points2(i, m); }
N(M2) N(F2)
//@ section vtk2_cells argmem=@ms_.*$
// CLOSE: where the chain of the boundary is closed: 0 at the last element, 1 and 2 after the loop
template <int CLOSE, int KEY, class M> void cells2(std::istream& i, M& m) {
    std::unordered_map<std::string, I_> known;
    I_ n;
    i >> n;
    m.getCells().resize(n);
    i.ignore(50, '\n');
    for (I_ c = 0; c < n; ++c) {
        m.getCells()[c].setIndex(c);
        I_ k;
        i >> k;
        std::vector<I_> v(k);
        for (I_ j = 0; j < k; ++j) i >> v[j];
        I_ last = INVALID_INDEX(I_);
        for (I_ j = 0; j < k; ++j) {
            const I_ a = v[j], b = v[(j + 1) % k];
            const std::string key = key_of<KEY>(a, b);
            I_ e;
            auto it = known.find(key);
            if (it == known.end()) {
                e = m.getEdges().size();
                m.getEdges().push_back({});
                auto& edge = m.getEdges()[e];
                edge.setVertexAIndex(a);
                edge.setVertexBIndex(b);
                edge.setIndex(e);
                edge.setCellLeftIndex(c);
                known[key] = e;
            } else {
                e = it->second;
                m.getEdges()[e].setCellRightIndex(c);
            }
            if (last != INVALID_INDEX(I_)) m.getEdges()[last].setNextBElem(e, c);
            if (j == 0) m.getCells()[c].setBoundaryElementIndex(e);
            if (CLOSE == 0 && j == k - 1) m.getEdges()[e].setNextBElem(m.getCells()[c].getBoundaryElementIndex(), c);
            last = e;
        }
        if ((CLOSE == 1 && k > 0) || (CLOSE == 2 && last != INVALID_INDEX(I_))) m.getEdges()[last].setNextBElem(m.getCells()[c].getBoundaryElementIndex(), c);
    }
}
#define N(M) \
EX void w_impl_cells_##M(M& R m) { std::istream i(7); VTKMeshReader<2> r; r.loadCells(i, m); } \
EX void w_spec_cells_##M(M& R m) { std::istream i(7); cells2<0, 0>(i, m); } \
EX void w_spec2_cells_##M(M& R m) { std::istream i(7); cells2<1, 0>(i, m); } \
EX void w_spec3_cells_##M(M& R m) { std::istream i(7); cells2<2, 0>(i, m); } \
EX void w_spec4_cells_##M(M& R m) { std::istream i(7); cells2<0, 1>(i, m); }
N(M2) N(F2)
//@ section vtk_types argmem=@ms_.*$
template <unsigned D> using Types = MeshDataContainer<typename MeshReader<D>::elementType::ElementType, D>;
inline bool known_type(int t, MeshReader<2>::elementType::ElementType& to) {
    using E = MeshReader<2>::elementType;
    switch (t) {
    case 3: to = E::LINE; return true;
    case 5: to = E::TRIANGLE; return true;
    case 8: case 9: to = E::QUAD; return true;
    case 7: to = E::POLYGON; return true;
    default: return false;
    }
}
inline bool known_type(int t, MeshReader<3>::elementType::ElementType& to) {
    using E = MeshReader<3>::elementType;
    switch (t) {
    case 10: to = E::TETRA; return true;
    case 11: case 12: to = E::HEXAHEDRON; return true;
    case 13: to = E::WEDGE; return true;
    case 14: to = E::PYRAMID; return true;
    default: return false;
    }
}
template <unsigned D, class M> Types<D> types(std::istream& i, M& m) {
    Types<D> r;
    I_ n;
    i >> n;
    r.allocateData(m);
    for (I_ k = 0; k < n; ++k) {
        int t = 0;
        i >> t;
        typename MeshReader<D>::elementType::ElementType e;
        if (!known_type(t, e)) throw std::runtime_error("unsupported cell type");
        r.template getDataByPos<0>()[k] = e;
    }
    return r;
}
#define N(M, D) \
EX void w_impl_types_##M(M& R m, Types<D>& R o) { std::istream i(7); VTKMeshReader<D> r; r.loadCellTypes(i, m); o = r.getCellTypes(); } \
EX void w_spec_types_##M(M& R m, Types<D>& R o) { std::istream i(7); Maker<D> t; const Types<D> s = types<D>(i, m); o = Types<D>(s); }
N(M2, 2) N(M3, 3) N(F3, 3)
//@ section vtk3_points argmem=@ms_.*$
template <class M> void points3(std::istream& i, M& m) {
    I_ n;
    i >> n;
    m.getVertices().resize(n);
    i.ignore(20, '\n');
    for (I_ k = 0; k < n; ++k) {
        auto& v = m.getVertices()[k];
        v.setIndex(k);
        i >> v[0] >> v[1] >> v[2];
    }
}
#define N(M) \
EX void w_impl_points_##M(M& R m, VTKMeshReader<3>& R r) { std::istream i(7); r.loadVertices(i, m); } \
EX void w_spec_points_##M(M& R m, VTKMeshReader<3>& R) { std::istream i(7); points3(i, m); }
N(M3) N(F3)
//@ section fpma argmem=@ms_.*$
template <class M> void fpma_points(std::istream& i, M& m) {
    I_ n;
    i >> n;
    m.getVertices().resize(n);
    for (I_ k = 0; k < n; ++k) {
        auto& v = m.getVertices()[k];
        v.setIndex(k);
        i >> v[0] >> v[1] >> v[2];
    }
}
template <int KEY, class M> void fpma_faces(std::istream& i, M& m) {
    std::unordered_map<std::string, I_> known;
    I_ n;
    i >> n;
    m.getFaces().resize(n);
    for (I_ f = 0; f < n; ++f) {
        m.getFaces()[f].setIndex(f);
        I_ k;
        i >> k;
        std::vector<I_> v(k);
        for (I_ j = 0; j < k; ++j) i >> v[j];
        for (I_ j = 0; j < k; ++j) {
            const I_ a = v[j], b = v[(j + 1) % k];
            const std::string key = key_of<KEY>(a, b);
            I_ e;
            auto it = known.find(key);
            if (it == known.end()) {
                e = m.getEdges().size();
                m.getEdges().push_back({});
                auto& edge = m.getEdges()[e];
                edge.setVertexAIndex(a);
                edge.setVertexBIndex(b);
                edge.setIndex(e);
                known[key] = e;
            } else
                e = it->second;
            m.getFaces()[f].getSubelements().addSubelement(e);
        }
    }
}
template <int CLOSE, bool FIRST, class M> void fpma_cells(std::istream& i, M& m) {
    I_ n;
    i >> n;
    m.getCells().resize(n);
    for (I_ c = 0; c < n; ++c) {
        m.getCells()[c].setIndex(c);
        I_ k;
        i >> k;
        std::vector<I_> v(FIRST ? k : 0);
        if (FIRST)
            for (I_ j = 0; j < k; ++j) i >> v[j];
        I_ last = INVALID_INDEX(I_);
        for (I_ j = 0; j < k; ++j) {
            I_ f;
            if (FIRST)
                f = v[j];
            else
                i >> f;
            if (j == 0) m.getCells()[c].setBoundaryElementIndex(f);
            if (last != INVALID_INDEX(I_)) m.getFaces()[last].setNextBElem(f, c);
            if (CLOSE == 0 && j == k - 1) m.getFaces()[f].setNextBElem(m.getCells()[c].getBoundaryElementIndex(), c);
            last = f;
        }
        if ((CLOSE == 1 && k > 0) || (CLOSE == 2 && last != INVALID_INDEX(I_))) m.getFaces()[last].setNextBElem(m.getCells()[c].getBoundaryElementIndex(), c);
    }
}
#define N(M) \
EX void w_impl_points_##M(M& R m) { std::istream i(7); FPMAMeshReader<3> r; r.loadVertices(i, m); } \
EX void w_spec_points_##M(M& R m) { std::istream i(7); fpma_points(i, m); } \
EX void w_impl_faces_##M(M& R m) { std::istream i(7); FPMAMeshReader<3> r; r.loadFaces(i, m); } \
EX void w_spec_faces_##M(M& R m) { std::istream i(7); fpma_faces<0>(i, m); } \
EX void w_spec2_faces_##M(M& R m) { std::istream i(7); fpma_faces<1>(i, m); } \
EX void w_impl_cells_##M(M& R m) { std::istream i(7); FPMAMeshReader<3> r; r.loadCells(i, m); } \
EX void w_spec_cells_##M(M& R m) { std::istream i(7); fpma_cells<0, false>(i, m); } \
EX void w_spec2_cells_##M(M& R m) { std::istream i(7); fpma_cells<1, false>(i, m); } \
EX void w_spec3_cells_##M(M& R m) { std::istream i(7); fpma_cells<2, false>(i, m); } \
EX void w_spec4_cells_##M(M& R m) { std::istream i(7); fpma_cells<0, true>(i, m); } \
EX void w_spec5_cells_##M(M& R m) { std::istream i(7); fpma_cells<1, true>(i, m); } \
EX void w_spec6_cells_##M(M& R m) { std::istream i(7); fpma_cells<2, true>(i, m); }
N(M3) N(F3)
//@ section vtk3_cells argmem=@ms_.*$
// STORE: 0 the place of a face is stored at every visit, 1 when the face is made; SIZE: 1 the number of faces is read once, 2 once for the loop
template <int CLOSE, int KEY, int STORE, int SIZE, class M> void cells3(std::istream& i, M& m) {
    TABLES
    std::unordered_map<std::string, I_> edges, faces;
    I_ n;
    i >> n;
    m.getCells().resize(n);
    i.ignore(50, '\n');
    for (I_ c = 0; c < n; ++c) {
        m.getCells()[c].setIndex(c);
        I_ k;
        i >> k;
        std::vector<I_> v(k);
        for (I_ j = 0; j < k; ++j) i >> v[j];
        const auto& shape = tables.at(k);
        std::vector<I_> mine;
        for (auto& e : shape.first) {
            const I_ a = v[e[0]], b = v[e[1]];
            const std::string key = key_of<KEY>(a, b);
            auto it = edges.find(key);
            I_ x;
            if (it == edges.end()) {
                x = m.getEdges().size();
                m.getEdges().push_back({});
                auto& edge = m.getEdges()[x];
                edge.setVertexAIndex(a);
                edge.setVertexBIndex(b);
                edge.setIndex(x);
                edges[key] = x;
            } else
                x = it->second;
            mine.push_back(x);
        }
        I_ last = INVALID_INDEX(I_);
        const I_ count = shape.second.size();
        for (I_ j = 0; j < (SIZE ? count : shape.second.size()); ++j) {
            auto& f = shape.second[j];
            std::vector<I_> sorted;
            for (int e : f) sorted.push_back(mine[e]);
            std::sort(sorted.begin(), sorted.end());
            std::string key = "";
            for (I_ e : sorted) key += std::to_string(e) + ";";
            auto it = faces.find(key);
            I_ x;
            if (it == faces.end()) {
                x = m.getFaces().size();
                m.getFaces().push_back({});
                for (int e : f) m.getFaces()[x].getSubelements().addSubelement(mine[e]);
                m.getFaces()[x].setCellLeftIndex(c);
                m.getFaces()[x].setIndex(x);
                if (STORE) faces[key] = x;
            } else {
                x = it->second;
                m.getFaces()[x].setCellRightIndex(c);
            }
            if (last != INVALID_INDEX(I_)) m.getFaces()[last].setNextBElem(x, c);
            if (j == 0) m.getCells()[c].setBoundaryElementIndex(x);
            if (CLOSE == 0 && j == (SIZE == 1 ? count : shape.second.size()) - 1) m.getFaces()[x].setNextBElem(m.getCells()[c].getBoundaryElementIndex(), c);
            if (!STORE) faces[key] = x;
            last = x;
        }
        if ((CLOSE == 1 && shape.second.size() > 0) || (CLOSE == 2 && last != INVALID_INDEX(I_))) m.getFaces()[last].setNextBElem(m.getCells()[c].getBoundaryElementIndex(), c);
    }
}
#define N(M) \
EX void w_impl_cells_##M(M& R m) { std::istream i(7); VTKMeshReader<3> r; r.loadCells(i, m); } \
EX void w_spec_cells_##M(M& R m) { std::istream i(7); cells3<0, 0, 0, 0>(i, m); } \
EX void w_spec2_cells_##M(M& R m) { std::istream i(7); cells3<0, 0, 1, 0>(i, m); } \
EX void w_spec3_cells_##M(M& R m) { std::istream i(7); cells3<0, 0, 0, 1>(i, m); } \
EX void w_spec4_cells_##M(M& R m) { std::istream i(7); cells3<0, 0, 1, 1>(i, m); } \
EX void w_spec5_cells_##M(M& R m) { std::istream i(7); cells3<1, 0, 0, 0>(i, m); } \
EX void w_spec6_cells_##M(M& R m) { std::istream i(7); cells3<2, 0, 0, 0>(i, m); } \
EX void w_spec7_cells_##M(M& R m) { std::istream i(7); cells3<0, 1, 0, 0>(i, m); } \
EX void w_spec8_cells_##M(M& R m) { std::istream i(7); cells3<1, 0, 1, 0>(i, m); } \
EX void w_spec9_cells_##M(M& R m) { std::istream i(7); cells3<2, 0, 1, 0>(i, m); } \
EX void w_spec10_cells_##M(M& R m) { std::istream i(7); cells3<0, 0, 0, 2>(i, m); } \
EX void w_spec11_cells_##M(M& R m) { std::istream i(7); cells3<0, 0, 1, 2>(i, m); }
N(M3)
#define N(M) \
EX void w_impl_cells_##M(M& R m) { std::istream i(7); VTKMeshReader<3> r; r.loadCells(i, m); } \
EX void w_spec_cells_##M(M& R m) { std::istream i(7); cells3<0, 0, 0, 0>(i, m); } \
EX void w_spec2_cells_##M(M& R m) { std::istream i(7); cells3<0, 0, 1, 0>(i, m); } \
EX void w_spec3_cells_##M(M& R m) { std::istream i(7); cells3<0, 0, 0, 1>(i, m); } \
EX void w_spec4_cells_##M(M& R m) { std::istream i(7); cells3<0, 0, 1, 1>(i, m); } \
EX void w_spec5_cells_##M(M& R m) { std::istream i(7); cells3<1, 0, 0, 0>(i, m); } \
EX void w_spec6_cells_##M(M& R m) { std::istream i(7); cells3<2, 0, 0, 0>(i, m); } \
EX void w_spec7_cells_##M(M& R m) { std::istream i(7); cells3<0, 1, 0, 0>(i, m); } \
EX void w_spec8_cells_##M(M& R m) { std::istream i(7); cells3<1, 0, 1, 0>(i, m); } \
EX void w_spec9_cells_##M(M& R m) { std::istream i(7); cells3<2, 0, 1, 0>(i, m); } \
EX void w_spec10_cells_##M(M& R m) { std::istream i(7); cells3<0, 0, 0, 2>(i, m); } \
EX void w_spec11_cells_##M(M& R m) { std::istream i(7); cells3<0, 0, 1, 2>(i, m); }
N(F3)
//@ section vtk_stream argmem=@ms_.*$;;@VTKMeshReader<..>::load(Vertices|Cells|CellTypes)$;;@MeshElements<.*>::(clear|updateSignature)
void expect(std::istream& i, const char* word) {
    std::string w;
    i >> w;
    if (w != word) throw std::runtime_error(word);
}
template <class V, class M> void vtk(std::istream& i, V& r, M& m) {
    i.seekg(0);
    i.ignore(1024, '\n');
    i.ignore(1024, '\n');
    expect(i, "ASCII");
    expect(i, "DATASET");
    expect(i, "UNSTRUCTURED_GRID");
    m.clear();
    expect(i, "POINTS");
    r.loadVertices(i, m);
    expect(i, "CELLS");
    r.loadCells(i, m);
    expect(i, "CELL_TYPES");
    r.loadCellTypes(i, m);
    m.updateSignature();
}
#define N(M, D) \
EX void w_impl_stream_##M(VTKMeshReader<D>& R r, M& R m) { std::istream i(7); r.loadFromStream(i, m); } \
EX void w_spec_stream_##M(VTKMeshReader<D>& R r, M& R m) { std::istream i(7); vtk(i, r, m); }
N(M2, 2) N(F2, 2) N(M3, 3) N(F3, 3)
//@ section fpma_stream argmem=@ms_.*$;;@FPMAMeshReader<..>::load(Vertices|Faces|Cells)$;;@MeshElements<.*>::(clear|updateSignature)
template <bool TYPES, class M> void fpma(std::istream& i, FPMAMeshReader<3>& r, M& m) {
    i.seekg(0);
    m.clear();
    r.loadVertices(i, m);
    r.loadFaces(i, m);
    r.loadCells(i, m);
    if (!TYPES) m.updateSignature();
    r.setupCellTypes(m);
    if (TYPES) m.updateSignature();
}
#define N(M) \
EX void w_impl_stream_##M(FPMAMeshReader<3>& R r, M& R m) { std::istream i(7); r.loadFromStream(i, m); } \
EX void w_spec_stream_##M(FPMAMeshReader<3>& R r, M& R m) { std::istream i(7); fpma<true>(i, r, m); } \
EX void w_spec2_stream_##M(FPMAMeshReader<3>& R r, M& R m) { std::istream i(7); fpma<false>(i, r, m); } \
EX void w_impl_types_##M(FPMAMeshReader<3>& R r, M& R m) { r.setupCellTypes(m); } \
EX void w_spec_types_##M(FPMAMeshReader<3>& R r, M& R m) { r.cellTypes.template getDataByPos<0>().resize(m.getCells().size(), MeshReader<3>::elementType::ElementType::POLYHEDRON); }
N(M3) N(F3)
