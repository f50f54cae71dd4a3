//@ preamble
#define UNDEBUG
#define MS_NO_FAILURE true
#include "model_stream.h"
#define MV_TERM
#include "model_vector.h"
#include "model_map.h"
#include "model_errors.h"
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h>
#define EX extern "C"
#define R __restrict
template <unsigned D> struct Both { double pressure; Vector<D, double> velocity; };
template <unsigned D> struct Strain { float heat; Vector<D * D, double> strain; int mark; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((Both<D>), (unsigned D), pressure, velocity);
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((Strain<D>), (unsigned D), heat, strain, mark);
using place = std::map<std::string, std::istream::pos_type>;
struct Plain { double a, b; };
template <unsigned D> using Mix = MeshDataContainer<std::tuple<Both<D>, int, Strain<D>>, D, D, D>;
template <unsigned D> using Bare = MeshDataContainer<std::tuple<Plain, Both<D>>, D, D>;
//@ section index argmem=@ms_.*$
place index(std::istream& i) {
    place r;
    std::string line;
    i.seekg(0, std::ios::beg);
    while (std::getline(i, line, '\n')) {
        const bool one = line.find("SCALARS ") == 0, more = line.find("VECTORS ") == 0 || line.find("TENSORS ") == 0;
        if (one || more) {
            std::string name;
            std::stringstream s(line);
            s.ignore(9, ' ');
            s >> name;
            if (one) i.ignore(500, '\n');
            r.insert(std::make_pair(name, i.tellg()));
        }
    }
    i.clear();
    return r;
}
EX void w_impl_index(place& R r) { std::istream i(7); r = VTKMeshDataReader<3, size_t>::indexData(i); }
EX void w_spec_index(place& R r) { std::istream i(7); r = index(i); }
//@ section read flags=-DMS_ONE_STREAM argmem=@ms_.*$;;@VTKMeshDataReader<.*>::indexData
std::istream::pos_type where(const place& p, const char* name) {
    auto it = p.find(name);
    if (it == p.end()) throw std::runtime_error("missing");
    return it->second;
}
template <class V> void part(std::istream& i, V& v, std::integral_constant<int, 1>) { i >> v; }
template <class V> void part(std::istream& i, V& v, std::integral_constant<int, 3>) { for (unsigned j = 0; j < v.size(); ++j) i >> v[j]; }
template <class V> void part(std::istream& i, V& v, std::integral_constant<int, 2>) {
    double none;
    for (unsigned j = 0; j < v.size(); ++j) {
        i >> v[j];
        if (j % 2 == 1) i >> none;
    }
    if (v.size() == 4) i >> none >> none >> none;
}
template <int K, class D, class M> void column(std::istream& i, const place& p, const char* name, D& d, M m) {
    i.seekg(where(p, name));
    for (size_t k = 0; k < d.size(); ++k) part(i, d[k].*m, std::integral_constant<int, K>());
}
template <unsigned D> void columns(std::istream& i, const place& p, DataContainer<Both<D>, D>& d) {
    column<1>(i, p, "pressure", d, &Both<D>::pressure);
    column<D>(i, p, "velocity", d, &Both<D>::velocity);
}
template <unsigned D> void columns(std::istream& i, const place& p, DataContainer<Strain<D>, D>& d) {
    column<1>(i, p, "heat", d, &Strain<D>::heat);
    column<D>(i, p, "strain", d, &Strain<D>::strain);
    column<1>(i, p, "mark", d, &Strain<D>::mark);
}
#define N(T, D) \
EX void w_impl_one_##T##D(DataContainer<T<D>, D>& R d) { std::istream i(7); VTKMeshDataReader<D, size_t>::readFromStream(i, d); } \
EX void w_spec_one_##T##D(DataContainer<T<D>, D>& R d) { std::istream i(7); const place p = VTKMeshDataReader<D, size_t>::indexData(i); columns<D>(i, p, d); }
N(Both, 2) N(Both, 3) N(Strain, 2) N(Strain, 3)
#define N(D) \
EX void w_impl_mix_##D(Mix<D>& R d) { std::istream i(7); VTKMeshDataReader<D, size_t>::readFromStream(i, d); } \
EX void w_spec_mix_##D(Mix<D>& R d) { std::istream i(7); const place p = VTKMeshDataReader<D, size_t>::indexData(i); columns<D>(i, p, d.template getDataByPos<0>()); columns<D>(i, p, d.template getDataByPos<2>()); } \
EX void w_impl_bound_##D(Bare<D>& R d) { std::istream i(7); auto t = makeTraits<Plain>("beta", &Plain::b, "alpha", &Plain::a); VTKMeshDataReader<D, size_t>::readFromStream(i, bindTraits(d, t)); } \
EX void w_spec_bound_##D(Bare<D>& R d) { std::istream i(7); const place p = VTKMeshDataReader<D, size_t>::indexData(i); column<1>(i, p, "beta", d.template getDataByPos<0>(), &Plain::b); column<1>(i, p, "alpha", d.template getDataByPos<0>(), &Plain::a); columns<D>(i, p, d.template getDataByPos<1>()); } \
EX void w_impl_given_##D(Bare<D>& R d) { std::istream i(7); auto t = makeTraits<Plain>("beta", &Plain::b); VTKMeshDataReader<D, size_t>::readFromStream(i, d, std::make_tuple(t)); } \
EX void w_spec_given_##D(Bare<D>& R d) { std::istream i(7); const place p = VTKMeshDataReader<D, size_t>::indexData(i); column<1>(i, p, "beta", d.template getDataByPos<0>(), &Plain::b); columns<D>(i, p, d.template getDataByPos<1>()); }
N(2) N(3)
//@ section write flags=-DMS_ONE_STREAM argmem=@ms_.*$
template <unsigned D> struct Odd { double ok; std::array<double, 5> odd; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((Odd<D>), (unsigned D), ok, odd);
// a cell that was cut into parts gives its value to each of them
template <class F> void written(VTKMeshWriter<2>&, size_t n, F f) { for (size_t k = 0; k < n; ++k) f(k); }
template <class F> void written(VTKMeshWriter<3>& w, size_t n, F f) {
    size_t cell = 0, out = 0;
    auto cut = w.backwardCellIndexMapping.begin();
    while (cut != w.backwardCellIndexMapping.end()) {
        const size_t first = cut->first, of = cut->second;
        while (out < first) { f(cell); ++cell; ++out; }
        f(of);
        ++out;
        cell = of;
        ++cut;
        if (cut == w.backwardCellIndexMapping.end() || cut->second != cell) ++cell;
    }
    while (cell < n) { f(cell); ++cell; }
}
template <unsigned D, class V> typename std::enable_if<std::is_arithmetic<V>::value>::type head(std::ostream& o, const char* name, V*) { o << "SCALARS " << name << " double 1\nLOOKUP_TABLE default\n"; }
template <unsigned D, class V> typename std::enable_if<!std::is_arithmetic<V>::value>::type head(std::ostream& o, const char* name, V* v) {
    if (v->size() == D) o << "VECTORS ";
    else if (v->size() == D * D) o << "TENSORS ";
    else throw std::runtime_error("neither");
    o << name << " double\n";
}
template <unsigned D, class V> typename std::enable_if<std::is_arithmetic<V>::value>::type value(std::ostream& o, const V& v) { o << v << ' '; }
template <unsigned D, class V> typename std::enable_if<!std::is_arithmetic<V>::value>::type value(std::ostream& o, const V& v) {
    for (unsigned j = 0; j < v.size(); ++j) {
        o << v[j] << ' ';
        if (D == 2 && j % 2 == 1) o << "0.0 ";
    }
    if (D == 2 && v.size() == 4) o << "0.0 0.0 0.0 ";
}
template <unsigned D, class C, class V, class T> void column(std::ostream& o, VTKMeshWriter<D>& w, const C& d, const char* name, V T::*m) {
    if (!std::is_arithmetic<V>::value) d.at(0);
    head<D>(o, name, static_cast<V*>(nullptr));
    written(w, d.size(), [&](size_t k) { value<D>(o, d.at(k).*m); });
    o << '\n';
}
template <unsigned D> void columns(std::ostream& o, VTKMeshWriter<D>& w, const DataContainer<Both<D>, D>& d) {
    column(o, w, d, "pressure", &Both<D>::pressure);
    column(o, w, d, "velocity", &Both<D>::velocity);
}
template <unsigned D> void columns(std::ostream& o, VTKMeshWriter<D>& w, const DataContainer<Strain<D>, D>& d) {
    column(o, w, d, "heat", &Strain<D>::heat);
    column(o, w, d, "strain", &Strain<D>::strain);
    column(o, w, d, "mark", &Strain<D>::mark);
}
template <unsigned D> void columns(std::ostream& o, VTKMeshWriter<D>& w, const DataContainer<Odd<D>, D>& d) {
    column(o, w, d, "ok", &Odd<D>::ok);
    column(o, w, d, "odd", &Odd<D>::odd);
}
#define N(T, D) \
EX void w_impl_one_##T##D(DataContainer<T<D>, D>& R d, VTKMeshWriter<D>& R w) { std::ostream o(7); VTKMeshDataWriter<D>::writeToStream(o, d, w); } \
EX void w_spec_one_##T##D(DataContainer<T<D>, D>& R d, VTKMeshWriter<D>& R w) { std::ostream o(7); o << "CELL_DATA " << w.getNumberOfCells() << '\n'; columns<D>(o, w, d); }
N(Both, 2) N(Both, 3) N(Strain, 2) N(Strain, 3) N(Odd, 2) N(Odd, 3)
#undef N
#define N(D) \
EX void w_impl_mix_##D(Mix<D>& R d, VTKMeshWriter<D>& R w) { std::ostream o(7); VTKMeshDataWriter<D>::writeToStream(o, d, w); } \
EX void w_spec_mix_##D(Mix<D>& R d, VTKMeshWriter<D>& R w) { std::ostream o(7); o << "CELL_DATA " << w.getNumberOfCells() << '\n'; columns<D>(o, w, d.template getDataByPos<0>()); columns<D>(o, w, d.template getDataByPos<2>()); } \
EX void w_impl_bound_##D(Bare<D>& R d, VTKMeshWriter<D>& R w) { std::ostream o(7); auto t = makeTraits<Plain>("beta", &Plain::b, "alpha", &Plain::a); VTKMeshDataWriter<D>::writeToStream(o, bindTraits(d, t), w); } \
EX void w_spec_bound_##D(Bare<D>& R d, VTKMeshWriter<D>& R w) { std::ostream o(7); o << "CELL_DATA " << w.getNumberOfCells() << '\n'; column(o, w, d.template getDataByPos<0>(), "beta", &Plain::b); column(o, w, d.template getDataByPos<0>(), "alpha", &Plain::a); columns<D>(o, w, d.template getDataByPos<1>()); } \
EX void w_impl_given_##D(Bare<D>& R d, VTKMeshWriter<D>& R w) { std::ostream o(7); auto t = makeTraits<Plain>("beta", &Plain::b); VTKMeshDataWriter<D>::writeToStream(o, d, w, std::make_tuple(t)); } \
EX void w_spec_given_##D(Bare<D>& R d, VTKMeshWriter<D>& R w) { std::ostream o(7); o << "CELL_DATA " << w.getNumberOfCells() << '\n'; column(o, w, d.template getDataByPos<0>(), "beta", &Plain::b); columns<D>(o, w, d.template getDataByPos<1>()); }
N(2) N(3)
#undef N
