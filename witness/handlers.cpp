// everything that reads or writes a mesh or its data, so that every exception
// handler on the way is part of the program
#define UNDEBUG
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h>
#include <GTMesh/Debug/Debug.h>
#include <fstream>
struct Row { double a; Vector<3, double> b; };
MAKE_ATTRIBUTE_TRAIT(Row, a, b);
template <unsigned D, class I, class T, unsigned... Rs> void all(UnstructuredMesh<D, I, T, Rs...>& m, const char* f) {
    auto r = m.load(f);
    m.write(f, *r, "x");
    m.write(f, r->getCellTypes(), "x");
    MeshDataContainer<Row, D> d(m);
    std::ifstream i(f);
    VTKMeshDataReader<D, I>::readFromStream(i, d);
    std::ofstream o(f);
    VTKMeshWriter<D, I, T> w;
    VTKMeshDataWriter<D>::writeToStream(o, d, w);
}
void w_2(UnstructuredMesh<2, size_t, double>& m, const char* f) { all(m, f); }
void w_3(UnstructuredMesh<3, size_t, double>& m, const char* f) { all(m, f); }
void w_3f(UnstructuredMesh<3, unsigned, float, 6>& m, const char* f) { all(m, f); }
