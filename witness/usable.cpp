//@ preamble
// Every documented operation is instantiated for the supported dimensions,
// index types, coordinate types and storage variants.  Nothing is executed.
#include <GTMesh/Debug/Debug.h>
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h>
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#include <GTMesh/Singleton/Singleton.h>
#include <GTMesh/NumericStaticArray/GramSchmidt.h>
#include <GTMesh/Traits/Traits.h>
#include <GTMesh/Traits/TraitsBind/TraitsBind.h>
#include <GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerArithmeticTraits.h>
#include <fstream>
#include <sstream>
struct P { double invVol; size_t index; Vector<3, double> v; };
MAKE_ATTRIBUTE_TRAIT(P, invVol, index, v);
struct P2 { double invVol; int index; Vector<2, double> v; };
MAKE_ATTRIBUTE_TRAIT(P2, invVol, index, v);
struct Plain { double invVol; Vector<3, double> v; };
struct Plain2 { double invVol; Vector<2, double> v; };
struct Arith { double a; Vector<3, double> b; };
MAKE_ATTRIBUTE_TRAIT(Arith, a, b);
using M2 = UnstructuredMesh<2, size_t, double>;
using M2f = UnstructuredMesh<2, unsigned, float>;
using M3 = UnstructuredMesh<3, size_t, double>;
using M3r = UnstructuredMesh<3, size_t, double, 6>;
using M3f = UnstructuredMesh<3, unsigned, float, 4>;
using M4 = UnstructuredMesh<4, size_t, double>;
using M4r = UnstructuredMesh<4, size_t, double, 8, 6>;
using M5 = UnstructuredMesh<5, size_t, double>;
using M5r = UnstructuredMesh<5, size_t, double, 4, 4, 6>;
template <class M> void object() {
    M a;
    const M b = a;
    M c(std::move(a));
    a = b;
    a = std::move(c);
    a.clear();
    (void)a.getVertices().size();
    (void)a.getEdges().size();
    (void)a.getFaces().size();
    (void)a.getCells().size();
    (void)b.getVertices().size();
    (void)b.getEdges().size();
    (void)b.getFaces().size();
    (void)b.getCells().size();
    (void)a.getBoundaryCells().size();
    (void)b.getBoundaryCells().size();
    (void)a.updateSignature();
    (void)a.getSignature();
    (void)b.getSignature();
}
template <class M> void appending() {
    M a;
    a.appendBoundaryCell(0, 0);
    a.setupBoundaryCells();
    a.setupBoundaryCellsCenters();
}
template <class M, unsigned D> void topology() {
    const M m{};
    m.template apply<D, 0>([](auto, auto) {});
    m.template apply<0, D>([](auto, auto) {});
    m.template apply<D, D - 1>(0, [](auto, auto) {});
    (void)m.template connections<D, 0>();
    (void)m.template connections<0, D>();
    (void)m.template connections<D, D - 1>();
    (void)m.template connections<D - 1, D>();
    (void)m.template connections<D, 0, ORDER_ORIGINAL>();
    (void)m.template connections<D, D - 1, ORDER_ORIGINAL>();
    (void)m.template neighborhood<D, D - 1>();
    (void)m.template neighborhood<D, D - 1, D>();
    (void)m.template neighborhood<D, D - 1, D, ORDER_ORIGINAL>();
    (void)m.template neighborhood<0, D, 0>();
    (void)m.template coloring<D, D - 1>();
    (void)m.template coloring<D, 0>();
    (void)m.template coloring<0, D>();
    (void)m.template coloring<D, 0, ColoringMethod::METHOD_RANDOM>();
    (void)m.template coloring<D, 0, ColoringMethod::METHOD_RANDOM>(42);
}
template <class M> void geometry() {
    M m;
    const M& c = m;
    m.initializeCenters();
    m.template initializeCenters<METHOD_TESSELLATED>();
    m.initializeCenters(m.computeElementCenters());
    (void)m.template computeElementCenters<METHOD_TESSELLATED>();
    (void)c.computeElementMeasures();
    (void)c.template computeElementMeasures<METHOD_TESSELLATED>();
    (void)c.computeFaceNormals();
    (void)c.template computeFaceNormals<METHOD_TESSELLATED>();
}
template <class M> void geometry_functions() {
    const M m{};
    const auto centers = computeCenters<METHOD_DEFAULT>(m);
    (void)computeCenters<METHOD_TESSELLATED>(m);
    (void)computeMeasures<METHOD_DEFAULT>(m);
    (void)computeMeasures<METHOD_TESSELLATED>(m);
    (void)computeFaceNormals<METHOD_DEFAULT>(m);
    (void)computeCellsDistance(m);

}
template <class M, class T> void files(const char* name) {
    M m;
    auto reader = m.load(name);
    const auto types = reader->getCellTypes();
    auto w = m.write(name);
    w = m.write(name, *reader);
    w = m.write(name, *reader, "head");
    w = m.write(name, types);
    w = m.write(name, types, "head");
    m.write(name, w);
    m.write(name, w, types);
    m.write(name, w, types, "head");
    m.write(name, w, *reader);
    m.write(name, w, *reader, "head");
}
template <unsigned D, class I, class R, class T, class Bare, unsigned... Reserve> void vtk_data(std::ostream& o, std::istream& i) {
    UnstructuredMesh<D, I, R, Reserve...> m;
    VTKMeshReader<D> r;
    VTKMeshReader<D> made(m);
    r.loadFromStream(i, m);
    VTKMeshWriter<D, I, R> w;
   
    w.writeHeader(o, "x");
    w.writeToStream(o, m, r.getCellTypes());
    (void)w.getNumberOfCells();
    MeshDataContainer<T, D> data(m);
    VTKMeshDataWriter<D>::writeToStream(o, data, w);
    VTKMeshDataReader<D, I>::readFromStream(i, data);
    MeshDataContainer<std::tuple<T, int>, D, 0> more(m);
    VTKMeshDataWriter<D>::writeToStream(o, more, w);
    VTKMeshDataReader<D, I>::readFromStream(i, more);
}
//@ compile mesh_2d
template void object<M2>(); template void object<M2f>();
//@ compile mesh_3d
template void object<M3>(); template void object<M3r>(); template void object<M3f>();
//@ compile mesh_4d
template void object<M4>(); template void object<M4r>();
//@ compile mesh_5d
template void object<M5>(); template void object<M5r>();
//@ compile boundary_2d
template void appending<M2>(); template void appending<M2f>();
//@ compile boundary_3d
template void appending<M3>(); template void appending<M3r>(); template void appending<M3f>();
//@ compile boundary_4d
template void appending<M4>();
//@ compile topology_2d
template void topology<M2, 2>(); template void topology<M2f, 2>();
//@ compile topology_3d
template void topology<M3, 3>(); template void topology<M3r, 3>(); template void topology<M3f, 3>();
//@ compile topology_4d
template void topology<M4, 4>(); template void topology<M4r, 4>();
//@ compile topology_5d
template void topology<M5, 5>(); template void topology<M5r, 5>();
//@ compile topology_between
void f() {
    const M3 m{};
    (void)m.connections<2, 1>(); (void)m.connections<1, 2>(); (void)m.connections<1, 3>(); (void)m.connections<3, 1>(); (void)m.connections<2, 0>(); (void)m.connections<0, 2>(); (void)m.connections<0, 1>(); (void)m.connections<1, 0>();
    (void)m.neighborhood<2, 3>(); (void)m.neighborhood<3, 2, 0>(); (void)m.neighborhood<1, 0, 3>(); (void)m.neighborhood<2, 1, 2>();
    (void)m.coloring<0, 2>(); (void)m.coloring<2, 1>(); (void)m.coloring<1, 3>();
    m.apply<2, 1>([](size_t, size_t) {}); m.apply<1, 2>([](size_t, size_t) {}); m.apply<1, 3>([](size_t, size_t) {}); m.apply<2, 3>([](size_t, size_t) {});
}
//@ compile geometry_2d
template void geometry<M2>(); template void geometry<M2f>();
//@ compile geometry_3d
template void geometry<M3>(); template void geometry<M3r>(); template void geometry<M3f>();
//@ compile geometry_4d
template void geometry<M4>(); template void geometry<M4r>();
//@ compile functions_2d
template void geometry_functions<M2>();
//@ compile functions_3d
template void geometry_functions<M3>(); template void geometry_functions<M3r>(); template void geometry_functions<M3f>();
//@ compile files_2d
template void files<M2, P2>(const char*); template void files<M2f, P2>(const char*);
//@ compile files_3d
template void files<M3, P>(const char*); template void files<M3r, P>(const char*); template void files<M3f, P>(const char*);
//@ compile vtk_2d
template void vtk_data<2, size_t, double, P2, Plain2>(std::ostream&, std::istream&);
//@ compile vtk_2d_float
template void vtk_data<2, unsigned, float, P2, Plain2>(std::ostream&, std::istream&);
//@ compile vtk_3d
template void vtk_data<3, size_t, double, P, Plain>(std::ostream&, std::istream&);
template void vtk_data<3, size_t, double, P, Plain, 6>(std::ostream&, std::istream&);
//@ compile vtk_3d_float
template void vtk_data<3, unsigned, float, P, Plain, 4>(std::ostream&, std::istream&);
//@ compile vtk_array
void f(std::ostream& o, std::istream& i, VTKMeshWriter<3, size_t, double>& w, VTKMeshWriter<2, size_t, double>& w2) {
    M3 m; MeshDataContainer<P, 3> data(m);
    VTKMeshDataWriter<3>::writeToStream(o, data.getDataByPos<0>(), w);
    VTKMeshDataReader<3, size_t>::readFromStream(i, data.getDataByPos<0>());
    M2 m2; MeshDataContainer<P2, 2> data2(m2);
    VTKMeshDataWriter<2>::writeToStream(o, data2.getDataByPos<0>(), w2);
    VTKMeshDataReader<2, size_t>::readFromStream(i, data2.getDataByPos<0>());
}
//@ compile vtk_bound
void f(std::ostream& o, std::istream& i, VTKMeshWriter<3, size_t, double>& w) {
    auto t = makeTraits<Plain>("invVol", &Plain::invVol, "v", &Plain::v);
    M3 m; MeshDataContainer<Plain, 3> data(m);
    VTKMeshDataWriter<3>::writeToStream(o, bindTraits(data, t), w);
    VTKMeshDataReader<3, size_t>::readFromStream(i, bindTraits(data, t));
    MeshDataContainer<std::tuple<Plain, P, int>, 3, 3, 0> more(m);
    VTKMeshDataWriter<3>::writeToStream(o, bindTraits(more, t), w);
    VTKMeshDataReader<3, size_t>::readFromStream(i, bindTraits(more, t));
}
//@ compile vtk_bound_2d
void f(std::ostream& o, std::istream& i, VTKMeshWriter<2, size_t, double>& w) {
    auto t = makeTraits<Plain2>("invVol", &Plain2::invVol, "v", &Plain2::v);
    M2 m; MeshDataContainer<Plain2, 2> data(m);
    VTKMeshDataWriter<2>::writeToStream(o, bindTraits(data, t), w);
    VTKMeshDataReader<2, size_t>::readFromStream(i, bindTraits(data, t));
}
//@ compile vtk_several
void f(std::ostream& o, std::istream& i, VTKMeshWriter<3, size_t, double>& w) {
    M3 m; MeshDataContainer<std::tuple<P, Arith, int>, 3, 3, 0> data(m);
    VTKMeshDataWriter<3>::writeToStream(o, data, w);
    VTKMeshDataReader<3, size_t>::readFromStream(i, data);
}
//@ compile vtk_first_without_reflection
void f(std::ostream& o, std::istream& i, VTKMeshWriter<3, size_t, double>& w) {
    M3 m; MeshDataContainer<std::tuple<int, P>, 0, 3> data(m);
    VTKMeshDataWriter<3>::writeToStream(o, data, w);
    VTKMeshDataReader<3, size_t>::readFromStream(i, data);
}
//@ nocompile vtk_without_reflection
void f(std::ostream& o, VTKMeshWriter<3, size_t, double>& w) { M3 m; MeshDataContainer<int, 3> data(m); VTKMeshDataWriter<3>::writeToStream(o, data, w); }
//@ compile fpma
void f(std::ostream& o, std::istream& i) {
    M3 m; FPMAMeshReader<3> r; r.loadFromStream(i, m); (void)r.getCellTypes();
    FPMAMeshWriter<3, size_t, double> w; w.writeToStream(o, m);
    M3f n; FPMAMeshReader<3> s; s.loadFromStream(i, n);
    FPMAMeshWriter<3, unsigned, float> x; x.writeToStream(o, n);
}
//@ compile data_container
void f() {
    M3 m;
    MeshDataContainer<size_t, 3, 2, 1> flags(m, 1);
    MeshDataContainer<double, 3> cells; cells.allocateData(m, 0); cells.allocateData(m);
    MeshDataContainer<std::tuple<int, char>, 3, 1> ex(m, 0, 42);
    MeshDataContainer<std::tuple<int, char>, 3, 1> copy = ex; copy = ex;
    (void)flags.getDataByPos<0>(); (void)flags.getDataByDim<1>();
    for (auto& c : m.getCells()) flags[c] = c.getIndex();
    for (auto& c : m.getFaces()) flags.at(c) = c.getIndex();
    for (auto& c : m.getEdges()) flags[c] = c.getIndex();
    DBGVAR(ex.getDataByPos<0>(), ex.getDataByPos<1>(), flags, m.getVertices(), flags.getDataByDim<3>());
}
//@ compile reflected_arithmetic
struct Scalars { double x; int i; float f; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(Scalars, x, i, f);
struct Nested { double x; Scalars s; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(Nested, x, s);
template <class S> void scalars() {
    S s{};
    const S k{};
    s = -s; s = -k; s = abs(s); s = abs(k); s = pow(s, 2); s = pow(k, 2.0); s = sqrt(k); s = cbrt(k); s = exp(k); s = log(k); s = s / 2; s = s + k; s = k + k; s = k - s; s = k * 2; s = 2 * k; s = s * k; s *= k;
    (void)max(k); (void)min(k); (void)sum(k);
}
template void scalars<Scalars>(); template void scalars<Nested>();
void f() {
    Arith a{}, b{};
    const Arith k{};
    a += b; a -= b; a *= 2.0; a += k;
    auto c = a + b; auto d = a - k; auto e = a * 2.0; auto g = 2.0 * a; auto h = a / 2.0;
    a = c + d + e + g + h;
    (void)max(a); (void)min(a); (void)sum(a); (void)abs(a);
    (void)max(k); (void)min(k); (void)sum(k); (void)abs(k);
}
//@ compile points_and_vectors
template <unsigned D, class R> void alg() {
    Vertex<D, R> a{}, b{}; Vector<D, R> u{}, v{};
    const Vertex<D, R> k = a;
    a = a + b; a = a - b; a = a * R(2); a = R(2) * a; a = a / R(2); a += b; a -= b; a *= R(2); a /= R(2);
    (void)(a * b); (void)a.normEuclid(); (void)a.sumOfSquares(); (void)(k + b); (void)(k - b); (void)(k * b); (void)a.sumOfSquares();
    u = a - b; v = u + v; (void)(u * v); (void)u.normEuclid(); u = v - u; DBGVAR(a, u);
}
template void alg<1, double>(); template void alg<2, double>(); template void alg<3, double>(); template void alg<4, double>(); template void alg<2, float>(); template void alg<3, float>(); template void alg<3, long double>();
//@ compile serializer
void f() {
    BinarySerializer s; M3 m; MeshDataContainer<P, 3> data(m);
    s << 1 << 2.0 << std::string("x") << std::vector<int>{1} << std::map<int, double>{} << P{} << data.getDataByPos<0>();
    int i; double d; std::string t; std::vector<int> v; std::map<int, double> mp; P p;
    s >> i >> d >> t >> v >> mp >> p;
    s.saveToFile("x"); s.loadFromFile("x");
}
