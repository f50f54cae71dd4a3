import os, sys, re, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv, norm, std

# every public computation that takes a method, asked for METHOD_TESSELLATED.
# The same entries are compiled a second time with every mention of
# METHOD_DEFAULT inside the library (defaults and explicit arguments) replaced by
# METHOD_TESSELLATED: if the asked method reaches every level, nothing changes.
HEAD = """
#include <GTMesh/UnstructuredMesh/MeshFunctions/MeshFunctionsDefine.h>
#ifdef ALL_TESSELLATED
#define METHOD_DEFAULT METHOD_TESSELLATED
#endif
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#include <new>
#define EX extern "C"
using D2 = UnstructuredMesh<2, size_t, double>;
using D3 = UnstructuredMesh<3, size_t, double, 6>;
using V3 = UnstructuredMesh<3, unsigned int, float>;
using D4 = UnstructuredMesh<4, size_t, double, 6, 6>;
template <unsigned D, class T> using Centers = MakeMeshDataContainer_t<Vertex<D, T>, make_custom_integer_sequence_t<unsigned int, 1, D>>;
template <class M> struct info;
template <unsigned D, class I, class T, unsigned... Rs> struct info<UnstructuredMesh<D, I, T, Rs...>> { using centers = Centers<D, T>; };
template <class T> void put(void* o, T&& v) { new (o) std::decay_t<T>(std::forward<T>(v)); }
"""
SHARED = """
EX void w_centers_M(M& m, void* o) { put(o, computeCenters<METHOD_TESSELLATED>(m)); }
EX void w_member_initializeCenters_M(M& m) { m.initializeCenters<METHOD_TESSELLATED>(); }
EX void w_member_centers_M(M& m, void* o) { put(o, m.computeElementCenters<METHOD_TESSELLATED>()); }
EX void w_member_measures_M(const M& m, void* o) { put(o, m.computeElementMeasures<METHOD_TESSELLATED>()); }
EX void w_member_normals_M(const M& m, void* o) { put(o, m.computeFaceNormals<METHOD_TESSELLATED>()); }
"""
HIGH = """
EX void w_measures_given_centers_M(info<M>::centers& c, const M& m, void* o) { put(o, computeMeasures<METHOD_TESSELLATED>(c, m)); }
EX void w_normals_given_centers_M(info<M>::centers& c, const M& m, void* o) { put(o, computeFaceNormals<METHOD_TESSELLATED>(c, m)); }
"""
LOW = """
EX void w_measures_M(const M& m, void* o) { put(o, computeMeasures<METHOD_TESSELLATED>(m)); }
EX void w_normals_M(const M& m, void* o) { put(o, computeFaceNormals<METHOD_TESSELLATED>(m)); }
"""
TEXT = HEAD + "".join(re.sub(r"\bM\b|(?<=_)M(?=\()", m, t) for m in ("D2", "D3", "V3", "D4") for t in [SHARED, HIGH if m == "D4" else LOW])


def main():
    c = core.Check("C37")
    core.tool("irx")

    def build(defs):
        with tempfile.TemporaryDirectory(prefix="gtm_") as d:
            src = os.path.join(d, "m.cpp")
            open(src, "w").write(TEXT)
            return core.ir(src, defs=defs, **std.options(["vector"]))
    a = build(())
    try:
        b = build(("ALL_TESSELLATED",))
    except core.CompileError as e:
        # a specialisation for METHOD_TESSELLATED comes after its first use: that
        # use asked for METHOD_DEFAULT
        errs = core.parse_errors(e.errors)
        for f, ln, msg in errs:
            if "after instantiation" in msg:
                c.bad("method", msg.split("'")[1] if "'" in msg else msg, "%s:%d" % (f, ln),
                      "METHOD_DEFAULT is asked for before the specialisation for METHOD_TESSELLATED: " + "; ".join(
                          re.findall(r"^(.*note: .*instantiation.*)$", e.errors, re.M)[:4]))
        if not c.viol:
            c.undec("method", "replaced method", "; ".join("%s:%d: %s" % x for x in errs[:3]))
        c.finish("the value computed for METHOD_TESSELLATED does not change when every METHOD_DEFAULT inside the library is replaced by METHOD_TESSELLATED")

    def one(f):
        try:
            x, y = (norm.Summariser(m, f, assume_in_range=True, root=core.REPO + "/").run() for m in (a, b))
        except norm.Unsupported as e:
            return ("undec", "", str(e))
        df = norm.compare(x, y)
        return ("bad", equiv.impl_loc(x, f), " | ".join(norm.expand(t, 1)[:700] for t in (norm.explain(x, y) or df)[:3])) if df else ("ok", "", "")
    fs = [f for f in sorted(a["functions"]) if f.startswith("w_")]
    for f, (st, where, det) in zip(fs, core.fork_map(one, fs, lost=lambda f, why: ("undec", "", why))):
        if st == "ok":
            c.ok("method", f[2:])
        elif st == "bad":
            c.bad("method", f[2:], where, "a level of this computation does not use the asked method: " + det)
        else:
            c.undec("method", f[2:], det)
    c.require("method", 26)
    c.finish("the value computed for METHOD_TESSELLATED does not change when every METHOD_DEFAULT inside the library is replaced by METHOD_TESSELLATED")


core.main(main)
