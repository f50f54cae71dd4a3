import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import tempfile
import core, equiv, layout, norm, std

TYPES = {
    "mesh2": ("UnstructuredMesh<2, size_t, double>", ""),
    "mesh2f": ("UnstructuredMesh<2, unsigned int, float>", ""), "mesh3": ("UnstructuredMesh<3, size_t, double>", ""),
    "mesh3r": ("UnstructuredMesh<3, unsigned int, double, 6>", ""), "mesh4": ("UnstructuredMesh<4, size_t, double>", ""),
    "cell2": ("UnstructuredMesh<2, size_t, double>::Cell", ""), "cell3": ("UnstructuredMesh<3, size_t, double>::Cell", ""),
    "cell3i": ("UnstructuredMesh<3, size_t, double>::Cell", "(size_t(7))"),
    "edge2": ("UnstructuredMesh<2, size_t, double>::Edge", ""), "edge3": ("UnstructuredMesh<3, size_t, double>::Edge", ""),
    "edge3i": ("UnstructuredMesh<3, size_t, double>::Edge", "(1, 2, 3)"),
    "face3": ("UnstructuredMesh<3, size_t, double>::Face", ""), "face3r": ("UnstructuredMesh<3, size_t, double, 4>::Face", ""),
    "face4": ("UnstructuredMesh<4, size_t, double, 4, 5>::ElementType<2>", ""),
    "vertex2": ("UnstructuredMesh<2, size_t, double>::Vertex", ""), "vertex3f": ("UnstructuredMesh<3, size_t, float>::Vertex", ""),
    "conn": ("CellConnection<size_t>", ""), "bconn": ("CellBoundaryConnection<unsigned int>", ""), "sub": ("SubelementContainer<size_t, 5>", ""),
    "index": ("ElementIndex<2 COMMA size_t>", "(size_t(3))"),
    "vtkr2": ("VTKMeshReader<2>", ""), "vtkr3": ("VTKMeshReader<3>", ""), "fpmar": ("FPMAMeshReader<3>", ""),
    "vtkw2": ("VTKMeshWriter<2>", ""), "vtkw3": ("VTKMeshWriter<3>", ""), "fpmaw": ("FPMAMeshWriter<3>", ""),
}


COPY = r"""#include "meshref.h"
template <class M> struct D;
#define N(M, d) \
EX void w_ctor_##M(const M& __restrict a, M* __restrict o) { new (o) M(a); } \
EX void w_assign_##M(const M& __restrict a, M* __restrict o) { *o = a; } \
template <> struct D<M> { static const unsigned v = d; }; \
EX size_t w_off_##M##_b(const M& m) { return (const char*)&m.getBoundaryCells() - (const char*)&m; }
#define O(M, d) EX size_t w_off_##M##_##d(const M& m) { return (const char*)&m.template getElements<d>() - (const char*)&m; }
using D2 = UnstructuredMesh<2, size_t, double>;
using D3 = UnstructuredMesh<3, unsigned int, double, 6>;
using D4 = UnstructuredMesh<4, size_t, float>;
N(D2, 2) N(D3, 3) N(D4, 4)
O(D2, 0) O(D2, 1) O(D2, 2) O(D3, 0) O(D3, 1) O(D3, 2) O(D3, 3) O(D4, 0) O(D4, 1) O(D4, 2) O(D4, 3) O(D4, 4)
"""


def copies(c):
    """copying a mesh copies each of its element tables onto the same table of the target"""
    with tempfile.TemporaryDirectory(prefix="gtm_") as d:
        src = os.path.join(d, "c.cpp")
        open(src, "w").write(COPY)
        mod = core.ir(src, **std.options(["vector"]))
    S = lambda f: norm.Summariser(mod, f, assume_in_range=True, root=core.REPO + "/").run()
    for f in sorted(mod["functions"]):
        m = re.match(r"w_(ctor|assign)_(\w+)$", f)
        if not m:
            continue
        s = S(f)
        for g in sorted(mod["functions"]):
            if not g.startswith("w_off_%s_" % m.group(2)):
                continue
            off = S(g).outcome[1]
            name = "%s of %s: %s" % ({"ctor": "copy construction", "assign": "copy assignment"}[m.group(1)], m.group(2),
                                     "boundary cells" if g.endswith("_b") else "elements of dimension " + g[-1])
            want = (norm.padd(norm.A("a1"), off), norm.padd(norm.A("a0"), off))
            done = False
            for dn, args, cond in s.calls:
                if re.search(r"::(vector|operator=)\(std::vector<.*> const&\)$", dn) and args[:2] == want:
                    done = norm.b_or(done, cond)
            bad = [p for p, t in norm.leaves(done) if t is not True]
            if bad:
                c.bad("copy", name, "src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h", "the table is not copied" + (" when %s" % bad[0] if bad[0] else ""))
            else:
                c.ok("copy", name)
    c.require("copy", 24)


def main():
    c = core.Check("C24")
    equiv.run(c, "state.cpp")
    copies(c)
    ty = {k: (t.replace(" COMMA", ","), e) for k, (t, e) in TYPES.items()}
    # standard containers define themselves; the reserved but not yet used
    # slots of a fixed-capacity list are no state
    res = layout.uninitialised("#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>", ty,
                               skip=lambda p, t: any(x.startswith("_M_") and x != "_M_elems" for x in p) or p[-1] == "_M_elems" and ("subelements" in p or len(p) <= 3))
    for n, (cnt, bad) in sorted(res.items()):
        t = ty[n][0] + ty[n][1]
        if bad:
            for off, p in bad:
                c.bad("defined_on_construction", "%s.%s" % (t, p), "src/GTMesh", "member %s (offset %d) of a freshly constructed %s is indeterminate" % (p, off, t))
        else:
            c.ok("defined_on_construction", t, n=cnt or 1)
    c.finish("every operation on a mesh covers all its element tables; every scalar member is defined on every path of every enumerated construction")


core.main(main)
