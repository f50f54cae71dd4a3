//@ preamble
#define UNDEBUG
#define MS_TEXT_VIEW
#include "model_stream.h"
#define MV_TERM
#include "model_vector.h"
#include <dlfcn.h>
// the dynamic type of an object, read from the object itself
extern "C" {
extern char vt_vtk3[64] __asm__("_ZTV13VTKMeshWriterILj3EmdE");
extern char vt_fpma3[64] __asm__("_ZTV14FPMAMeshWriterILj3EmdE");
extern char vt_vtk2[64] __asm__("_ZTV13VTKMeshWriterILj2EmdE");
}
template <class T> inline bool has_type(const char* v);
template <class T, class F> inline T model_cast(F* f) {
    using C = typename std::remove_pointer<T>::type;
    return f && has_type<typename std::remove_cv<C>::type>(*reinterpret_cast<const char* const*>(f) - 16) ? static_cast<T>(f) : nullptr;
}
#define dynamic_cast model_cast
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#undef dynamic_cast
template <> inline bool has_type<VTKMeshWriter<3, size_t, double>>(const char* v) { return v == vt_vtk3; }
template <> inline bool has_type<FPMAMeshWriter<3, size_t, double>>(const char* v) { return v != vt_vtk3 && v == vt_fpma3; }
template <> inline bool has_type<VTKMeshWriter<2, size_t, double>>(const char* v) { return v == vt_vtk2; }
#define EX extern "C"
using M2 = UnstructuredMesh<2, size_t, double>;
using M3 = UnstructuredMesh<3, size_t, double>;
#define R(D) std::unique_ptr<MeshReader<D>>
#define W(D) std::unique_ptr<MeshWriter<D>>
template <class T> using CT = MeshDataContainer<typename MeshNativeType<T::meshDimension()>::ElementType, T::meshDimension()>;
EX void give(void* to, const void* x);
template <unsigned D> struct Types final : MeshReader<D> {
    using C = MeshDataContainer<typename MeshNativeType<D>::ElementType, D>;
    const C& c;
    explicit Types(const C& x) : c(x) {}
    C getCellTypes() const override { return c; }
};
enum Kind { VTK, FPMA, UNKNOWN };
[[noreturn]] inline void refuse() { throw std::runtime_error("refused"); }
#define NAMED(...) std::string name(__VA_ARGS__);
template <class T, unsigned D> R(D) read_as(Kind k, std::ifstream& file, T& m);
template <> R(3) read_as(Kind k, std::ifstream& file, M3& m) {
    if (k == VTK) { auto r = std::make_unique<VTKMeshReader<3>>(); r->loadFromStream(file, m); return r; }
    auto r = std::make_unique<FPMAMeshReader<3>>(); r->loadFromStream(file, m); return r;
}
template <> R(2) read_as(Kind k, std::ifstream& file, M2& m) {
    auto r = std::make_unique<VTKMeshReader<2>>(); r->loadFromStream(file, m); return r;
}
template <class T, unsigned D> R(D) ref_load(Kind k, const std::string& name, T& m) {
    std::ifstream file(name);
    if (!file.is_open()) refuse();
    if (k == UNKNOWN) refuse();
    return read_as<T, D>(k, file, m);
}
template <class T, unsigned D> R(D) ref_load2(Kind k, const std::string& name, T& m) {
    if (k == UNKNOWN) refuse();
    return ref_load<T, D>(k, name, m);
}
inline auto whole(M3*) { return MeshNativeType<3>::ElementType::POLYHEDRON; }
inline auto whole(M2*) { return MeshNativeType<2>::ElementType::POLYGON; }
template <class T, class V> void put_vtk(const std::string& name, V* v, T& m, const CT<T>& types, const std::string& header) {
    std::ofstream file(name);
    if (!file.is_open()) refuse();
    v->writeHeader(file, header);
    if (types.template getDataByPos<0>().size() == 0) { CT<T> all(m, whole(static_cast<T*>(nullptr))); v->writeToStream(file, m, all); }
    else v->writeToStream(file, m, types);
}
template <class T, class V> void put_fpma(const std::string& name, V* v, T& m) {
    std::ofstream file(name);
    if (!file.is_open()) refuse();
    v->writeToStream(file, m);
}
inline W(3) ref_new(Kind k, const std::string& name, M3& m, const CT<M3>& types, const std::string& header) {
    if (k == VTK) { auto w = std::make_unique<VTKMeshWriter<3, size_t, double>>(); put_vtk(name, w.get(), m, types, header); return w; }
    if (k == FPMA) { auto w = std::make_unique<FPMAMeshWriter<3, size_t, double>>(); put_fpma(name, w.get(), m); return w; }
    refuse();
}
inline W(2) ref_new(Kind k, const std::string& name, M2& m, const CT<M2>& types, const std::string& header) {
    if (k == VTK) { auto w = std::make_unique<VTKMeshWriter<2, size_t, double>>(); put_vtk(name, w.get(), m, types, header); return w; }
    refuse();
}
inline void ref_with(Kind k, const std::string& name, W(3)& w, M3& m, const CT<M3>& types, const std::string& header) {
    if (k == UNKNOWN) refuse();
    auto v = model_cast<VTKMeshWriter<3, size_t, double>*>(w.get());
    auto f = model_cast<FPMAMeshWriter<3, size_t, double>*>(w.get());
    if (k == VTK && v) put_vtk(name, v, m, types, header);
    else if (k == FPMA && f) put_fpma(name, f, m);
    else w = ref_new(k, name, m, types, header);
}
inline void ref_with(Kind k, const std::string& name, W(2)& w, M2& m, const CT<M2>& types, const std::string& header) {
    if (k == UNKNOWN) refuse();
    auto v = model_cast<VTKMeshWriter<2, size_t, double>*>(w.get());
    if (v) put_vtk(name, v, m, types, header);
    else w = ref_new(k, name, m, types, header);
}
#define EVERY_NAME(D, F) \
D(vtk, VTK, "mesh.vtk") \
D(vtk_short, VTK, "m.vtk") \
D(vtk_dots, VTK, "mesh.1.2.vtk") \
D(vtk_after_other, VTK, "mesh.fpma.vtk") \
D(vtk_twice, VTK, "mesh.vtk.vtk") \
D(vtk_in_directory, VTK, "../dir.fpma/mesh.vtk") \
D(fpma, F, "mesh.fpma") \
D(fpma_short, F, "m.fpma") \
D(fpma_dots, F, "mesh.1.2.fpma") \
D(fpma_after_other, F, "mesh.vtk.fpma") \
D(fpma_in_directory, F, "../dir.vtk/mesh.fpma") \
D(no_name, UNKNOWN, "") \
D(one_character, UNKNOWN, "m") \
D(no_extension, UNKNOWN, "mesh") \
D(no_extension_in_directory, UNKNOWN, "dir.vtk/mesh") \
D(no_extension_in_directory_fpma, UNKNOWN, "dir.fpma/mesh") \
D(no_dot, UNKNOWN, "meshvtk") \
D(no_dot_fpma, UNKNOWN, "meshfpma") \
D(bare, UNKNOWN, "vtk") \
D(empty_extension, UNKNOWN, "mesh.") \
D(backup, UNKNOWN, "mesh.vtk.bak") \
D(backup_fpma, UNKNOWN, "mesh.fpma.bak") \
D(backup_tilde, UNKNOWN, "mesh.vtk~") \
D(longer, UNKNOWN, "mesh.vtkx") \
D(longer_fpma, UNKNOWN, "mesh.fpmax") \
D(before, UNKNOWN, "mesh.xvtk") \
D(before_fpma, UNKNOWN, "mesh.xfpma") \
D(shorter, UNKNOWN, "mesh.vt") \
D(shorter_fpma, UNKNOWN, "mesh.fpm") \
D(other, UNKNOWN, "mesh.vtu") \
D(text, UNKNOWN, "mesh.txt")
//@ section load_3d argmem=@(ms_.*|give)$;;@(VTK|FPMA)Mesh(Reader|Writer)<.*>::(loadFromStream|writeToStream|writeHeader) pure=@std::(map|vector|array)<.*>::~?(map|vector)$;;@ms_close$
#define LOAD3(N, K, ...) \
EX void w_impl_##N(M3& m, void* o) { std::string name(__VA_ARGS__); { auto r = m.load(name); give(o, r.release()); } } \
EX void w_spec_##N(M3& m, void* o) { std::string name(__VA_ARGS__); { auto r = ref_load<M3, 3>(K, name, m); give(o, r.release()); } } \
EX void w_spec2_##N(M3& m, void* o) { std::string name(__VA_ARGS__); { auto r = ref_load2<M3, 3>(K, name, m); give(o, r.release()); } }
EVERY_NAME(LOAD3, FPMA)
//@ section load_2d argmem=@(ms_.*|give)$;;@(VTK|FPMA)Mesh(Reader|Writer)<.*>::(loadFromStream|writeToStream|writeHeader) pure=@std::(map|vector|array)<.*>::~?(map|vector)$;;@ms_close$
#define LOAD2(N, K, ...) \
EX void w_impl_##N(M2& m, void* o) { std::string name(__VA_ARGS__); { auto r = m.load(name); give(o, r.release()); } } \
EX void w_spec_##N(M2& m, void* o) { std::string name(__VA_ARGS__); { auto r = ref_load<M2, 2>(K, name, m); give(o, r.release()); } } \
EX void w_spec2_##N(M2& m, void* o) { std::string name(__VA_ARGS__); { auto r = ref_load2<M2, 2>(K, name, m); give(o, r.release()); } }
EVERY_NAME(LOAD2, UNKNOWN)
//@ section write_3d argmem=@(ms_.*|give)$;;@(VTK|FPMA)Mesh(Reader|Writer)<.*>::(loadFromStream|writeToStream|writeHeader) pure=@std::(map|vector|array)<.*>::~?(map|vector)$;;@ms_close$ unroll=@UnstructuredMesh<.*>::write
#define DO(N, K, ...) \
EX void w_impl_##N(M3& m, const CT<M3>& t, const char* h, void* o) { std::string name(__VA_ARGS__); { auto r = m.write(name, t, std::string(h, 5)); give(o, r.release()); } } \
EX void w_spec_##N(M3& m, const CT<M3>& t, const char* h, void* o) { std::string name(__VA_ARGS__); { auto r = ref_new(K, name, m, t, std::string(h, 5)); give(o, r.release()); } }
EVERY_NAME(DO, FPMA)
//@ section write_untyped_3d argmem=@(ms_.*|give)$;;@(VTK|FPMA)Mesh(Reader|Writer)<.*>::(loadFromStream|writeToStream|writeHeader) pure=@std::(map|vector|array)<.*>::~?(map|vector)$;;@ms_close$ unroll=@UnstructuredMesh<.*>::write
#define DO(N, K, ...) \
EX void w_impl_##N(M3& m, const char* h, void* o) { std::string name(__VA_ARGS__); { auto r = m.write(name, std::string(h, 5)); give(o, r.release()); } } \
EX void w_spec_##N(M3& m, const char* h, void* o) { std::string name(__VA_ARGS__); { CT<M3> t(m, whole(&m)); auto r = ref_new(K, name, m, t, std::string(h, 5)); give(o, r.release()); } }
EVERY_NAME(DO, FPMA)
//@ section write_read_3d argmem=@(ms_.*|give)$;;@(VTK|FPMA)Mesh(Reader|Writer)<.*>::(loadFromStream|writeToStream|writeHeader) pure=@std::(map|vector|array)<.*>::~?(map|vector)$;;@ms_close$ unroll=@UnstructuredMesh<.*>::write
#define DO(N, K, ...) \
EX void w_impl_##N(M3& m, const CT<M3>& u, const char* h, void* o) { std::string name(__VA_ARGS__); { Types<3> g(u); auto r = m.write(name, g, std::string(h, 5)); give(o, r.release()); } } \
EX void w_spec_##N(M3& m, const CT<M3>& u, const char* h, void* o) { std::string name(__VA_ARGS__); { const auto t = u; auto r = ref_new(K, name, m, t, std::string(h, 5)); give(o, r.release()); } }
EVERY_NAME(DO, FPMA)
//@ section write_with_3d argmem=@(ms_.*|give)$;;@(VTK|FPMA)Mesh(Reader|Writer)<.*>::(loadFromStream|writeToStream|writeHeader) pure=@std::(map|vector|array)<.*>::~?(map|vector)$;;@ms_close$ unroll=@UnstructuredMesh<.*>::write
#define DO(N, K, ...) \
EX void w_impl_##N(M3& m, W(3)& w, const CT<M3>& t, const char* h) { std::string name(__VA_ARGS__); { m.write(name, w, t, std::string(h, 5)); } } \
EX void w_spec_##N(M3& m, W(3)& w, const CT<M3>& t, const char* h) { std::string name(__VA_ARGS__); { ref_with(K, name, w, m, t, std::string(h, 5)); } }
EVERY_NAME(DO, FPMA)
//@ section write_with_untyped_3d argmem=@(ms_.*|give)$;;@(VTK|FPMA)Mesh(Reader|Writer)<.*>::(loadFromStream|writeToStream|writeHeader) pure=@std::(map|vector|array)<.*>::~?(map|vector)$;;@ms_close$ unroll=@UnstructuredMesh<.*>::write
#define DO(N, K, ...) \
EX void w_impl_##N(M3& m, W(3)& w) { std::string name(__VA_ARGS__); { m.write(name, w); } } \
EX void w_spec_##N(M3& m, W(3)& w) { std::string name(__VA_ARGS__); { CT<M3> t; ref_with(K, name, w, m, t, ""); } }
EVERY_NAME(DO, FPMA)
//@ section write_with_read_3d argmem=@(ms_.*|give)$;;@(VTK|FPMA)Mesh(Reader|Writer)<.*>::(loadFromStream|writeToStream|writeHeader) pure=@std::(map|vector|array)<.*>::~?(map|vector)$;;@ms_close$ unroll=@UnstructuredMesh<.*>::write
#define DO(N, K, ...) \
EX void w_impl_##N(M3& m, W(3)& w, const CT<M3>& u, const char* h) { std::string name(__VA_ARGS__); { Types<3> g(u); m.write(name, w, g, std::string(h, 5)); } } \
EX void w_spec_##N(M3& m, W(3)& w, const CT<M3>& u, const char* h) { std::string name(__VA_ARGS__); { const auto t = u; ref_with(K, name, w, m, t, std::string(h, 5)); } }
EVERY_NAME(DO, FPMA)
//@ section write_2d argmem=@(ms_.*|give)$;;@(VTK|FPMA)Mesh(Reader|Writer)<.*>::(loadFromStream|writeToStream|writeHeader) pure=@std::(map|vector|array)<.*>::~?(map|vector)$;;@ms_close$ unroll=@UnstructuredMesh<.*>::write
#define DO(N, K, ...) \
EX void w_impl_##N(M2& m, const CT<M2>& t, const char* h, void* o) { std::string name(__VA_ARGS__); { auto r = m.write(name, t, std::string(h, 5)); give(o, r.release()); } } \
EX void w_spec_##N(M2& m, const CT<M2>& t, const char* h, void* o) { std::string name(__VA_ARGS__); { auto r = ref_new(K, name, m, t, std::string(h, 5)); give(o, r.release()); } }
EVERY_NAME(DO, UNKNOWN)
//@ section write_untyped_2d argmem=@(ms_.*|give)$;;@(VTK|FPMA)Mesh(Reader|Writer)<.*>::(loadFromStream|writeToStream|writeHeader) pure=@std::(map|vector|array)<.*>::~?(map|vector)$;;@ms_close$ unroll=@UnstructuredMesh<.*>::write
#define DO(N, K, ...) \
EX void w_impl_##N(M2& m, const char* h, void* o) { std::string name(__VA_ARGS__); { auto r = m.write(name, std::string(h, 5)); give(o, r.release()); } } \
EX void w_spec_##N(M2& m, const char* h, void* o) { std::string name(__VA_ARGS__); { CT<M2> t(m, whole(&m)); auto r = ref_new(K, name, m, t, std::string(h, 5)); give(o, r.release()); } }
EVERY_NAME(DO, UNKNOWN)
//@ section write_read_2d argmem=@(ms_.*|give)$;;@(VTK|FPMA)Mesh(Reader|Writer)<.*>::(loadFromStream|writeToStream|writeHeader) pure=@std::(map|vector|array)<.*>::~?(map|vector)$;;@ms_close$ unroll=@UnstructuredMesh<.*>::write
#define DO(N, K, ...) \
EX void w_impl_##N(M2& m, const CT<M2>& u, const char* h, void* o) { std::string name(__VA_ARGS__); { Types<2> g(u); auto r = m.write(name, g, std::string(h, 5)); give(o, r.release()); } } \
EX void w_spec_##N(M2& m, const CT<M2>& u, const char* h, void* o) { std::string name(__VA_ARGS__); { const auto t = u; auto r = ref_new(K, name, m, t, std::string(h, 5)); give(o, r.release()); } }
EVERY_NAME(DO, UNKNOWN)
//@ section write_with_2d argmem=@(ms_.*|give)$;;@(VTK|FPMA)Mesh(Reader|Writer)<.*>::(loadFromStream|writeToStream|writeHeader) pure=@std::(map|vector|array)<.*>::~?(map|vector)$;;@ms_close$ unroll=@UnstructuredMesh<.*>::write
#define DO(N, K, ...) \
EX void w_impl_##N(M2& m, W(2)& w, const CT<M2>& t, const char* h) { std::string name(__VA_ARGS__); { m.write(name, w, t, std::string(h, 5)); } } \
EX void w_spec_##N(M2& m, W(2)& w, const CT<M2>& t, const char* h) { std::string name(__VA_ARGS__); { ref_with(K, name, w, m, t, std::string(h, 5)); } }
EVERY_NAME(DO, UNKNOWN)
//@ section write_with_untyped_2d argmem=@(ms_.*|give)$;;@(VTK|FPMA)Mesh(Reader|Writer)<.*>::(loadFromStream|writeToStream|writeHeader) pure=@std::(map|vector|array)<.*>::~?(map|vector)$;;@ms_close$ unroll=@UnstructuredMesh<.*>::write
#define DO(N, K, ...) \
EX void w_impl_##N(M2& m, W(2)& w) { std::string name(__VA_ARGS__); { m.write(name, w); } } \
EX void w_spec_##N(M2& m, W(2)& w) { std::string name(__VA_ARGS__); { CT<M2> t; ref_with(K, name, w, m, t, ""); } }
EVERY_NAME(DO, UNKNOWN)
//@ section write_with_read_2d argmem=@(ms_.*|give)$;;@(VTK|FPMA)Mesh(Reader|Writer)<.*>::(loadFromStream|writeToStream|writeHeader) pure=@std::(map|vector|array)<.*>::~?(map|vector)$;;@ms_close$ unroll=@UnstructuredMesh<.*>::write
#define DO(N, K, ...) \
EX void w_impl_##N(M2& m, W(2)& w, const CT<M2>& u, const char* h) { std::string name(__VA_ARGS__); { Types<2> g(u); m.write(name, w, g, std::string(h, 5)); } } \
EX void w_spec_##N(M2& m, W(2)& w, const CT<M2>& u, const char* h) { std::string name(__VA_ARGS__); { const auto t = u; ref_with(K, name, w, m, t, std::string(h, 5)); } }
EVERY_NAME(DO, UNKNOWN)
