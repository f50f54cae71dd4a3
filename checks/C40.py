import os, re, sys, ast
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv

# The witnesses show that the code's tables, type codes and vertex orders are the
# reference's; the rules below decide, over the reference, that they fit together.

READ = os.path.join(core.WIT, "read.cpp")
WRITTEN = os.path.join(core.WIT, "written.cpp")
KINDS = {"TETRA": 4, "PYRAMID": 5, "WEDGE": 6, "HEXAHEDRON": 8}
# vertices of one kind of file cell, as the file format numbers them, in the order of ours
FORMAT = {8: [0, 1, 3, 2], 9: [0, 1, 2, 3], 5: [0, 1, 2], 10: [0, 1, 2, 3], 11: [0, 1, 3, 2, 4, 5, 7, 6],
          12: list(range(8)), 13: list(range(6)), 14: list(range(5))}
WHERE = "src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h"


def tables():
    t = open(READ).read()
    t = t[t.index("tables{") + 6:]
    t = t[:t.index("template <unsigned D> struct Maker")].replace("\\", " ").strip().rstrip(";")
    v = ast.literal_eval(t.replace("{", "[").replace("}", "]"))
    return {n: (e, f) for n, (e, f) in v}


def codes():
    r, w = {}, {}
    for d in (2, 3):
        part = open(READ).read()
        part = part[part.index("inline bool known_type(int t, MeshReader<%d>" % d):]
        part = part[:part.index("return false")]
        for line in part.splitlines():
            to = re.search(r"to = E::(\w+)", line)
            for n in re.findall(r"case (\d+):", line):
                r[(d, int(n))] = to.group(1)
        part = open(WRITTEN).read()
        part = part[part.index("inline int code(MeshNativeType<%d>" % d):]
        for kind, n in re.findall(r"case E::(\w+): return (\d+);", part[:part.index("default")]):
            w[(d, kind)] = int(n)
    return r, w


def ring(edges, face):
    """the vertices around a face, or None when its edges are no ring"""
    es = [tuple(edges[i]) for i in face]
    deg = {}
    for a, b in es:
        deg[a] = deg.get(a, 0) + 1
        deg[b] = deg.get(b, 0) + 1
    if any(v != 2 for v in deg.values()) or len(deg) != len(es):
        return None
    out, cur, left = [es[0][0]], es[0][1], es[1:]
    while cur != out[0]:
        out.append(cur)
        nxt = [e for e in left if cur in e]
        if not nxt:
            return None
        left.remove(nxt[0])
        cur = nxt[0][0] if nxt[0][1] == cur else nxt[0][1]
    return out if len(out) == len(es) else None


def written(kind, edges, rings, base):
    """the orders in which a cell can be written, as the writer's reference does"""
    around = rings[base]
    nv = 1 + max(max(e) for e in edges)
    for start in range(len(around)):
        for turn in (1, -1):
            v = [around[(start + turn * k) % len(around)] for k in range(len(around))]
            if kind in ("TETRA", "PYRAMID"):
                v += [x for x in range(nv) if x not in v]
            else:
                for b in list(v):
                    for a, c in edges:
                        o = c if a == b else a if c == b else None
                        if o is not None and o not in v:
                            v.append(o)
            yield v


def main():
    c = core.Check("C40")
    equiv.run(c, "read.cpp", only=["vtk_types", "vtk3_cells"])
    equiv.run(c, "cells.cpp")
    equiv.run(c, "written.cpp", only=["vtk2", "vtk3", "vtk3_index"])
    tab = tables()
    reads, writes = codes()
    for (d, kind), n in sorted(writes.items()):
        if reads.get((d, n)) == kind:
            c.ok("codes", "%s is written as %d and read back as %s" % (kind, n, kind))
        else:
            c.bad("codes", kind, WHERE, "%s is written as %d, which is read as %s" % (kind, n, reads.get((d, n))))
    for (d, n), kind in sorted(reads.items()):
        if (d, kind) in writes:
            c.ok("codes", "%s, read from code %d, can be written" % (kind, n))
        else:
            c.bad("codes", "code %d" % n, WHERE, "%s is read from code %d but has no code to be written under" % (kind, n))
    for kind, n in sorted(KINDS.items()):
        edges, faces = tab[n]
        rings = [ring(edges, f) for f in faces]
        for f, r in zip(faces, rings):
            if r is None:
                c.bad("closed", "%s face %s" % (kind, f), WHERE, "the edges of the face are no closed ring")
            else:
                c.ok("closed", "%s face %s is the ring %s" % (kind, f, r))
        for i, e in enumerate(edges):
            k = sum(f.count(i) for f in faces)
            if k == 2 and e[0] != e[1]:
                c.ok("closed", "%s edge %s lies between two faces" % (kind, e))
            else:
                c.bad("closed", "%s edge %s" % (kind, e), WHERE, "the edge is in %d faces of the cell" % k)
        nv = 1 + max(max(e) for e in edges)
        if nv == n and nv - len(edges) + len(faces) == 2:
            c.ok("closed", "%s: %d - %d + %d = 2" % (kind, nv, len(edges), len(faces)))
        else:
            c.bad("closed", kind, WHERE, "V - E + F is not 2")
        if any(r is None for r in rings):
            continue
        own = {frozenset(r) for r in rings}
        links = {frozenset(e) for e in edges}
        for b, r in enumerate(rings):
            if kind == "PYRAMID" and len(r) != 4 or kind == "WEDGE" and len(r) != 3:
                continue
            for v in written(kind, edges, rings, b):
                again = {frozenset(v[x] for x in q) for q in rings} if len(v) == nv else None
                if again == own and {frozenset((v[a], v[z])) for a, z in edges} == links:
                    c.ok("round trip", "%s written as %s is read back with the same faces" % (kind, v))
                else:
                    c.bad("round trip", "%s from face %d" % (kind, b), WHERE, "written as %s it is read back with other faces" % v)
    # the vertices of a cell are taken in the order of the file format
    for (d, n), kind in sorted(reads.items()):
        if n not in FORMAT:
            continue
        if FORMAT[n] == list(range(len(FORMAT[n]))):
            c.ok("order", "code %d numbers the vertices as %s" % (n, kind))
        else:
            c.bad("order", "code %d as %s" % (n, kind), WHERE,
                  "a file lists the vertices of a cell of code %d so that a %s would need them in the order %s, but they are taken as they stand"
                  % (n, kind, FORMAT[n]))
    c.require("codes", 15)
    c.require("closed", 50)
    c.require("round trip", 30)
    c.finish("tables, codes and vertex orders of the code equal the reference (value numbering); over the reference: every written code reads back "
             "as its kind, every face is a ring, every edge is in two faces, and every order a cell can be written in is read back with the same faces")


core.main(main)
