//@ preamble
#define UNDEBUG
#define MS_NO_FAILURE true
#include "model_stream.h"
#define MV_TERM
#include "model_vector.h"
#include "model_map.h"
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h>
#define EX extern "C"
#define R __restrict
using M2 = UnstructuredMesh<2, size_t, double>;
using F2 = UnstructuredMesh<2, unsigned long long, float>;
using M3 = UnstructuredMesh<3, size_t, double>;
using F3 = UnstructuredMesh<3, unsigned long long, float, 6>;
template <class M> struct info;
template <unsigned D, class I, class T, unsigned... Rs> struct info<UnstructuredMesh<D, I, T, Rs...>> {
    static constexpr unsigned dim = D;
    using index = I;
    using real = T;
};
#define I_ typename info<M>::index
#define T_ typename info<M>::real
#define EACH(N) N(M3) N(F3)
// the vertices of a face in the order of its edges, starting against the first edge
template <class M, class V> void around(M& m, typename M::Face& face, V& out) {
    const I_ first = face.getSubelements()[0];
    const I_ start = m.getEdges()[first].getVertexBIndex();
    I_ next = m.getEdges()[first].getVertexAIndex();
    out.push_back(start);
    I_ last = first;
    while (start != next)
        for (auto& e : face.getSubelements()) {
            auto& edge = m.getEdges()[e];
            if (e != last) {
                if (edge.getVertexAIndex() == next) { last = e; out.push_back(edge.getVertexAIndex()); next = edge.getVertexBIndex(); }
                else if (edge.getVertexBIndex() == next) { last = e; out.push_back(edge.getVertexBIndex()); next = edge.getVertexAIndex(); }
            }
        }
}
//@ section fpma argmem=@ms_.*$;;@MeshElements<.*>::updateSignature;;@MeshConnections<.*>::connections
// LATE: 1 the faces of the cells are indexed first
template <class M, int LATE = 0> struct Fpma {
    MeshDataContainer<std::vector<ElementIndex<0, I_>>, 2> verts;
    MeshDataContainer<std::vector<ElementIndex<2, I_>>, 3> faces;
    size_t written = 0;
    void write(std::ostream& o, M& m) {
        const size_t now = m.updateSignature();
        if (now != written) {
            verts.template getDataByPos<0>().clear();
            verts.allocateData(m);
            if (LATE) faces = MeshConnections<3, 2, Order::ORDER_ORIGINAL>::connections(m);
            for (auto& f : m.getFaces()) around(m, f, verts.at(f));
            if (!LATE) faces = MeshConnections<3, 2, Order::ORDER_ORIGINAL>::connections(m);
        }
        written = now;
        o << m.getVertices().size() << '\n';
        for (auto& v : m.getVertices()) o << v[0] << ' ' << v[1] << ' ' << v[2] << '\n';
        o << '\n' << m.getFaces().size() << '\n';
        for (auto& f : m.getFaces()) {
            o << verts.at(f).size() << ' ';
            for (I_ i : verts.at(f)) o << i << ' ';
            o << '\n';
        }
        o << m.getCells().size() << '\n';
        for (auto& c : m.getCells()) {
            o << faces.at(c).size() << ' ';
            for (I_ i : faces.at(c)) o << i << ' ';
            o << '\n';
        }
        o << 0;
    }
};
#define N(M) \
EX void w_impl_once##M(M& R m) { std::ostream o(7); FPMAMeshWriter<3, typename info<M>::index, typename info<M>::real> w; w.writeToStream(o, m); } \
EX void w_spec_once##M(M& R m) { std::ostream o(7); Fpma<M> w; w.write(o, m); } \
EX void w_spec2_once##M(M& R m) { std::ostream o(7); Fpma<M, 1> w; w.write(o, m); }
EACH(N)
//@ section fpma_again maybe argmem=@ms_.*$;;@MeshElements<.*>::updateSignature;;@MeshConnections<.*>::connections flags=-fno-access-control
// a writer that has written before, whatever that was: it indexes the mesh anew exactly when its signature is another one
// INSIDE: 1 the signature is remembered with the index; LATE: 1 the faces of the cells are indexed first
template <int INSIDE, int LATE, class W, class M> void again(W& w, std::ostream& o, M& m) {
    const size_t now = m.updateSignature();
    if (now != w.lastHash) {
        w.faceVert.template getDataByPos<0>().clear();
        w.faceVert.allocateData(m);
        if (LATE) w.cellFace = MeshConnections<3, 2, Order::ORDER_ORIGINAL>::connections(m);
        for (auto& f : m.getFaces()) around(m, f, w.faceVert.at(f));
        if (!LATE) w.cellFace = MeshConnections<3, 2, Order::ORDER_ORIGINAL>::connections(m);
        if (INSIDE) w.lastHash = now;
    }
    if (!INSIDE) w.lastHash = now;
    o << m.getVertices().size() << '\n';
    for (auto& v : m.getVertices()) o << v[0] << ' ' << v[1] << ' ' << v[2] << '\n';
    o << '\n' << m.getFaces().size() << '\n';
    for (auto& f : m.getFaces()) {
        o << w.faceVert.at(f).size() << ' ';
        for (I_ i : w.faceVert.at(f)) o << i << ' ';
        o << '\n';
    }
    o << m.getCells().size() << '\n';
    for (auto& c : m.getCells()) {
        o << w.cellFace.at(c).size() << ' ';
        for (I_ i : w.cellFace.at(c)) o << i << ' ';
        o << '\n';
    }
    o << 0;
}
template <class M> using Writer = FPMAMeshWriter<3, typename info<M>::index, typename info<M>::real>;
#define N(M) \
EX void w_impl_again##M(Writer<M>& R w, M& R m) { std::ostream o(7); w.writeToStream(o, m); } \
EX void w_spec_again##M(Writer<M>& R w, M& R m) { std::ostream o(7); again<0, 0>(w, o, m); } \
EX void w_spec2_again##M(Writer<M>& R w, M& R m) { std::ostream o(7); again<1, 0>(w, o, m); } \
EX void w_spec3_again##M(Writer<M>& R w, M& R m) { std::ostream o(7); again<0, 1>(w, o, m); } \
EX void w_spec4_again##M(Writer<M>& R w, M& R m) { std::ostream o(7); again<1, 1>(w, o, m); }
EACH(N)
//@ section vtk_header argmem=@ms_.*$
template <unsigned D> void header(std::ostream& o, const std::string& name) {
    o << "# vtk DataFile Version 2.0\n" << name << "\nASCII\nDATASET UNSTRUCTURED_GRID\n";
}
EX void w_impl_header2(const char* n) { std::ostream o(7); VTKMeshWriter<2> w; w.writeHeader(o, std::string(n)); }
EX void w_spec_header2(const char* n) { std::ostream o(7); header<2>(o, std::string(n)); }
EX void w_impl_header3(const char* n) { std::ostream o(7); VTKMeshWriter<3> w; w.writeHeader(o, std::string(n)); }
EX void w_spec_header3(const char* n) { std::ostream o(7); header<3>(o, std::string(n)); }
//@ section vtk2 noheap argmem=@ms_.*$;;@MeshElements<.*>::updateSignature;;@.*::getNextBElem$ pure=@.*::getNextBElem$ opaque=@.*::getNextBElem$
// the vertices of a cell in the order of its boundary, counterclockwise
template <class M> void ring(M& m, typename M::Cell& cell, std::vector<I_>& out) {
    I_ e = cell.getBoundaryElementIndex(), next;
    if (m.getEdges()[e].getCellLeftIndex() == cell.getIndex()) { out.push_back(m.getEdges()[e].getVertexAIndex()); next = m.getEdges()[e].getVertexBIndex(); }
    else { out.push_back(m.getEdges()[e].getVertexBIndex()); next = m.getEdges()[e].getVertexAIndex(); }
    I_ last = e;
    do {
        if (last != e) {
            auto& edge = m.getEdges()[e];
            if (edge.getVertexBIndex() == next) { next = edge.getVertexAIndex(); out.push_back(edge.getVertexBIndex()); last = e; }
            else if (edge.getVertexAIndex() == next) { next = edge.getVertexBIndex(); out.push_back(edge.getVertexAIndex()); last = e; }
        }
        e = m.getEdges()[e].getNextBElem(cell.getIndex());
    } while (next != out[0]);
}
inline int code(MeshNativeType<2>::ElementType t) {
    using E = MeshNativeType<2>::ElementType;
    switch (t) {
    case E::LINE: return 3;
    case E::TRIANGLE: return 5;
    case E::QUAD: return 9;
    case E::POLYGON: return 7;
    default: mm_missing();
    }
}
template <class M, int FORM = 0, int ROW = 0> struct Vtk2 {
    std::vector<std::vector<I_>> cells;
    I_ total = 0;
    size_t written = 0;
    void write(std::ostream& o, M& m, MeshDataContainer<MeshNativeType<2>::ElementType, 2>& types) {
        const size_t now = m.updateSignature();
        if (written != now) {
            if (FORM == 0) {
                cells.clear();
                std::vector<I_> v;
                for (auto& c : m.getCells()) { v.clear(); ring(m, c, v); cells.push_back(v); }
                total = 0;
                for (auto& x : cells) total += x.size() + 1;
            } else if (FORM == 1) { // counted as they are made
                cells.clear();
                total = 0;
                for (auto& c : m.getCells()) {
                    std::vector<I_> v;
                    ring(m, c, v);
                    total += v.size() + 1;
                    cells.push_back(std::move(v));
                }
            } else {
                cells.clear();
                total = 0;
                std::vector<I_> v;
                for (auto& c : m.getCells()) { v.clear(); ring(m, c, v); total += v.size() + 1; cells.push_back(v); }
            }
        }
        written = now;
        o << "POINTS " << m.getVertices().size() << " double\n";
        for (auto& v : m.getVertices()) o << v[0] << ' ' << v[1] << " 0.0\n";
        o << "\nCELLS " << m.getCells().size() << ' ' << total << '\n';
        for (auto& x : cells) {
            o << x.size() << ' ';
            if (ROW) { for (I_ i = 0; i < x.size(); ++i) { if (i > 0) o << ' '; o << x[i]; } }
            else { for (I_ i = 0; i < x.size(); ++i) { o << x[i]; if (i < x.size() - 1) o << ' '; } }
            o << '\n';
        }
        o << "\nCELL_TYPES " << m.getCells().size() << '\n';
        for (auto t : types.template getDataByPos<0>()) o << code(t) << '\n';
        o << '\n';
    }
};
#define N(M) \
EX void w_impl_once##M(M& R m, MeshDataContainer<MeshNativeType<2>::ElementType, 2>& R t) { std::ostream o(7); VTKMeshWriter<2, typename info<M>::index, typename info<M>::real> w; w.writeToStream(o, m, t); } \
EX void w_spec_once##M(M& R m, MeshDataContainer<MeshNativeType<2>::ElementType, 2>& R t) { std::ostream o(7); Vtk2<M> w; MeshDataContainer<MeshNativeType<2>::ElementType, 2> u = t; w.write(o, m, u); } \
EX void w_spec2_once##M(M& R m, MeshDataContainer<MeshNativeType<2>::ElementType, 2>& R t) { std::ostream o(7); Vtk2<M, 1, 0> w; MeshDataContainer<MeshNativeType<2>::ElementType, 2> u = t; w.write(o, m, u); } \
EX void w_spec3_once##M(M& R m, MeshDataContainer<MeshNativeType<2>::ElementType, 2>& R t) { std::ostream o(7); Vtk2<M, 2, 0> w; MeshDataContainer<MeshNativeType<2>::ElementType, 2> u = t; w.write(o, m, u); } \
EX void w_spec4_once##M(M& R m, MeshDataContainer<MeshNativeType<2>::ElementType, 2>& R t) { std::ostream o(7); Vtk2<M, 0, 1> w; MeshDataContainer<MeshNativeType<2>::ElementType, 2> u = t; w.write(o, m, u); }
N(M2) N(F2)
//@ section vtk2_again maybe noheap argmem=@ms_.*$;;@MeshElements<.*>::updateSignature;;@.*::getNextBElem$ pure=@.*::getNextBElem$ opaque=@.*::getNextBElem$ flags=-fno-access-control
template <class M, class V> void ring(M& m, typename M::Cell& cell, V& out) {
    I_ e = cell.getBoundaryElementIndex(), next;
    if (m.getEdges()[e].getCellLeftIndex() == cell.getIndex()) { out.push_back(m.getEdges()[e].getVertexAIndex()); next = m.getEdges()[e].getVertexBIndex(); }
    else { out.push_back(m.getEdges()[e].getVertexBIndex()); next = m.getEdges()[e].getVertexAIndex(); }
    I_ last = e;
    do {
        if (last != e) {
            auto& edge = m.getEdges()[e];
            if (edge.getVertexBIndex() == next) { next = edge.getVertexAIndex(); out.push_back(edge.getVertexBIndex()); last = e; }
            else if (edge.getVertexAIndex() == next) { next = edge.getVertexBIndex(); out.push_back(edge.getVertexAIndex()); last = e; }
        }
        e = m.getEdges()[e].getNextBElem(cell.getIndex());
    } while (next != out[0]);
}
inline int code(MeshNativeType<2>::ElementType t) {
    using E = MeshNativeType<2>::ElementType;
    switch (t) {
    case E::LINE: return 3;
    case E::TRIANGLE: return 5;
    case E::QUAD: return 9;
    case E::POLYGON: return 7;
    default: mm_missing();
    }
}
using Types = MeshDataContainer<MeshNativeType<2>::ElementType, 2>;
template <int FORM, int ROW, int INSIDE, class W, class M> void again(W& w, std::ostream& o, M& m, Types& types) {
    auto& cells = w.cellVert.template getDataByPos<0>();
    const size_t now = m.updateSignature();
    if (w.lastHash != now) {
        if (FORM == 0) {
            cells.clear();
            std::vector<I_> v;
            for (auto& c : m.getCells()) { v.clear(); ring(m, c, v); cells.push_back(v); }
            w.totalNumberOfWrittenElements = 0;
            for (auto& x : cells) w.totalNumberOfWrittenElements += x.size() + 1;
        } else if (FORM == 1) { // counted as they are made
            cells.clear();
            w.totalNumberOfWrittenElements = 0;
            for (auto& c : m.getCells()) {
                std::vector<I_> v;
                ring(m, c, v);
                w.totalNumberOfWrittenElements += v.size() + 1;
                cells.push_back(std::move(v));
            }
        } else {
            cells.clear();
            w.totalNumberOfWrittenElements = 0;
            std::vector<I_> v;
            for (auto& c : m.getCells()) { v.clear(); ring(m, c, v); w.totalNumberOfWrittenElements += v.size() + 1; cells.push_back(v); }
        }
        if (INSIDE) w.lastHash = now;
    }
    if (!INSIDE) w.lastHash = now;
    o << "POINTS " << m.getVertices().size() << " double\n";
    for (auto& v : m.getVertices()) o << v[0] << ' ' << v[1] << " 0.0\n";
    o << "\nCELLS " << m.getCells().size() << ' ' << w.totalNumberOfWrittenElements << '\n';
    for (auto& x : cells) {
        o << x.size() << ' ';
        if (ROW) { for (I_ i = 0; i < x.size(); ++i) { if (i > 0) o << ' '; o << x[i]; } }
            else { for (I_ i = 0; i < x.size(); ++i) { o << x[i]; if (i < x.size() - 1) o << ' '; } }
        o << '\n';
    }
    o << "\nCELL_TYPES " << m.getCells().size() << '\n';
    for (auto t : types.template getDataByPos<0>()) o << code(t) << '\n';
    o << '\n';
}
template <class M> using Writer = VTKMeshWriter<2, typename info<M>::index, typename info<M>::real>;
struct M2codes { std::map<MeshNativeType<2>::ElementType, int> t{{MeshNativeType<2>::ElementType::LINE, 3}, {MeshNativeType<2>::ElementType::TRIANGLE, 5}, {MeshNativeType<2>::ElementType::QUAD, 9}, {MeshNativeType<2>::ElementType::POLYGON, 7}}; };
#define N(M) \
EX void w_impl_again##M(Writer<M>& R w, M& R m, Types& R t) { std::ostream o(7); w.TypeConversionTable = M2codes().t; w.writeToStream(o, m, t); } \
EX void w_spec_again##M(Writer<M>& R w, M& R m, Types& R t) { std::ostream o(7); w.TypeConversionTable = M2codes().t; Types u = t; again<0, 0, 0>(w, o, m, u); } \
EX void w_spec2_again##M(Writer<M>& R w, M& R m, Types& R t) { std::ostream o(7); w.TypeConversionTable = M2codes().t; Types u = t; again<1, 0, 0>(w, o, m, u); } \
EX void w_spec3_again##M(Writer<M>& R w, M& R m, Types& R t) { std::ostream o(7); w.TypeConversionTable = M2codes().t; Types u = t; again<2, 0, 0>(w, o, m, u); } \
EX void w_spec4_again##M(Writer<M>& R w, M& R m, Types& R t) { std::ostream o(7); w.TypeConversionTable = M2codes().t; Types u = t; again<0, 1, 0>(w, o, m, u); } \
EX void w_spec5_again##M(Writer<M>& R w, M& R m, Types& R t) { std::ostream o(7); w.TypeConversionTable = M2codes().t; Types u = t; again<0, 0, 1>(w, o, m, u); } \
EX void w_spec6_again##M(Writer<M>& R w, M& R m, Types& R t) { std::ostream o(7); w.TypeConversionTable = M2codes().t; Types u = t; again<1, 0, 1>(w, o, m, u); } \
EX void w_spec7_again##M(Writer<M>& R w, M& R m, Types& R t) { std::ostream o(7); w.TypeConversionTable = M2codes().t; Types u = t; again<2, 0, 1>(w, o, m, u); }
N(M2) N(F2)
//@ section vtk3 noheap argmem=@ms_.*$;;@MeshElements<.*>::updateSignature;;@MeshConnections<.*>::connections;;@edgesOrientation.* opaque=@edgesOrientation.*;;@MeshConnections<.*>::connections pure=@edgesOrientation.*;;@MeshConnections<.*>::connections
// what is written of an indexed mesh; indexing it again is due exactly when its signature changed
inline int code(MeshNativeType<3>::ElementType t) {
    using E = MeshNativeType<3>::ElementType;
    switch (t) {
    case E::TETRA: return 10;
    case E::HEXAHEDRON: return 12;
    case E::WEDGE: return 13;
    case E::PYRAMID: return 14;
    default: mm_missing();
    }
}
using Types = MeshDataContainer<MeshNativeType<3>::ElementType, 3>;
template <class M> struct Indexed {
    size_t hash;
    std::vector<std::vector<I_>> cells;
    std::vector<MeshNativeType<3>::ElementType> types;
    std::vector<Vertex<3, T_>> more;
    I_ total;
};
template <class T> void put(std::vector<T>& to, const std::vector<T>& from) { to = from; }
template <int ROW, class M> void vtk3(std::ostream& o, Indexed<M>& w, M& m) {
    if (w.hash != m.updateSignature()) { w.more.clear(); w.cells.clear(); w.types.clear(); w.total = 0; }
    o << "POINTS " << m.getVertices().size() + w.more.size() << " double\n";
    for (auto& v : m.getVertices()) o << v[0] << ' ' << v[1] << ' ' << v[2] << '\n';
    for (auto& v : w.more) o << v[0] << ' ' << v[1] << ' ' << v[2] << '\n';
    o << "\nCELLS " << w.cells.size() << ' ' << w.total << '\n';
    for (auto& x : w.cells) {
        o << x.size() << ' ';
        if (ROW) { for (I_ i = 0; i < x.size(); ++i) { if (i > 0) o << ' '; o << x[i]; } }
        else { for (I_ i = 0; i < x.size(); ++i) { o << x[i]; if (i < x.size() - 1) o << ' '; } }
        o << '\n';
    }
    o << "\nCELL_TYPES " << w.types.size() << '\n';
    for (auto c : w.types) o << code(c) << '\n';
    o << '\n';
}
#define N(M) \
EX void w_impl_stream##M(M& R m, Indexed<M>& R x) { \
    std::ostream o(7); VTKMeshWriter<3, typename info<M>::index, typename info<M>::real> w; m.getCells().clear(); Types none; \
    w.lastHash = x.hash; put(w.cellVert.template getDataByPos<0>(), x.cells); put(w.cellTypes.template getDataByPos<0>(), x.types); w.appendedVertices = x.more; w.totalNumberOfWrittenElements = x.total; \
    w.writeToStream(o, m, none); } \
EX void w_spec_stream##M(M& R m, Indexed<M>& R x) { std::ostream o(7); Indexed<M> w; m.getCells().clear(); Types none; \
    w.hash = x.hash; w.cells = x.cells; w.types = x.types; w.more = x.more; w.total = x.total; vtk3<0>(o, w, m); } \
EX void w_spec2_stream##M(M& R m, Indexed<M>& R x) { std::ostream o(7); Indexed<M> w; m.getCells().clear(); Types none; \
    w.hash = x.hash; w.cells = x.cells; w.types = x.types; w.more = x.more; w.total = x.total; vtk3<1>(o, w, m); }
EACH(N)
//@ section vtk3_index noheap argmem=@ms_.*$;;@MeshConnections<.*>::connections;;@edgesOrientation.*
using E3 = MeshNativeType<3>::ElementType;
using Types = MeshDataContainer<E3, 3>;
using Ori = MeshDataContainer<std::vector<bool>, 2>;
template <class M> using Writer = VTKMeshWriter<3, typename info<M>::index, typename info<M>::real>;
// the vertices of a face, counterclockwise as seen from inside of the cell
template <class M> void facing(M& m, typename M::Face& f, typename M::Cell& c, Ori& ori, std::vector<I_>& out) {
    const I_ first = f.getSubelements()[0];
    const bool against = ori.at(f)[0] == (f.getCellLeftIndex() == c.getIndex());
    const I_ start = against ? m.getEdges()[first].getVertexBIndex() : m.getEdges()[first].getVertexAIndex();
    I_ next = against ? m.getEdges()[first].getVertexAIndex() : m.getEdges()[first].getVertexBIndex();
    out.push_back(start);
    I_ last = first;
    while (start != next)
        for (auto& e : f.getSubelements()) {
            auto& edge = m.getEdges()[e];
            if (edge.getIndex() == last) continue;
            const I_ a = edge.getVertexAIndex(), b = edge.getVertexBIndex();
            if (a == next) { last = edge.getIndex(); out.push_back(a); next = b; }
            else if (b == next) { last = edge.getIndex(); out.push_back(b); next = a; }
        }
}
#define N(M) \
EX void w_impl_face##M(Writer<M>& R w, M& R m, M::Face& R f, M::Cell& R c, Ori& R o, std::vector<typename info<M>::index>& R v) { w.indexFace(m, f, c, o, v); } \
EX void w_spec_face##M(Writer<M>& R w, M& R m, M::Face& R f, M::Cell& R c, Ori& R o, std::vector<typename info<M>::index>& R v) { facing(m, f, c, o, v); }
EACH(N)
