"""Scalar members of a type (clang record layout) and whether constructing an
object of the type defines every one of them."""
import os
import re
import tempfile
import core
import norm
import std


def leaves(lines):
    """[(offset, member path)] of the scalar members in a dumped record"""
    rows = []
    for ln in lines:
        m = re.match(r"\s*(\d+)(?::\S+)? \|( +)(.*)$", ln)
        if m:
            rows.append((int(m.group(1)), len(m.group(2)), m.group(3)))
    out = []
    path = []
    for i, (off, ind, text) in enumerate(rows):
        path = [p for p in path if p[0] < ind]
        nested = i + 1 < len(rows) and rows[i + 1][1] > ind
        name = text.split(" ")[-1] if not text.endswith(")") else text
        path.append((ind, name))
        if nested or "(empty)" in text or text.endswith("pointer)") or text.endswith("(base)"):
            continue
        full = [p[1] for p in path]
        out.append((off, full, text))
    return out


def dump(src, names, defs=()):
    r = core.sh([core.CLANG] + core.base_flags(defs) + ["-Xclang", "-fdump-record-layouts", "-fsyntax-only", "-w", src])
    if r.returncode:
        raise core.CompileError("layout", r.stderr)
    res = {}
    for blk in r.stdout.split("*** Dumping AST Record Layout"):
        ls = blk.strip("\n").split("\n")
        m = re.match(r"\s*0 \| struct (lay_\w+)$", ls[0])
        if m and m.group(1)[4:] in names:
            res[m.group(1)[4:]] = leaves(ls[1:])
    return res


def written(fin, size=1 << 20):
    """offsets (from the first argument) that are defined on every path"""
    out = set()
    for o, t in fin.get("a0", {}).items():
        bad = False
        for _p, l in norm.leaves(t):
            if l[0] == "undef" or l[0] == "mem" and l[1] == "0" and l[2] == "a0" and l[3] == o:
                bad = True
            if l[0] == "byte" and isinstance(l[1], norm.Poly) and "undef" in str(l[1]):
                bad = True
        if not bad:
            out.add(o)
    return out


def uninitialised(prelude, types, presets="vector,map,string,stream", skip=lambda path, text: False, defs=()):
    """types: {name: (type, construction expression)} -> {name: (count, [(offset, path)])}"""
    code = prelude + "\n#include <new>\n"
    for n, (t, e) in types.items():
        code += "using ty_%s = %s;\nstruct lay_%s { ty_%s object; };\nextern \"C\" void w_init_%s(ty_%s* p) { new (p) ty_%s%s; }\nstatic_assert(sizeof(lay_%s) > 0, \"\");\n" % (n, t, n, n, n, n, n, e, n)
    with tempfile.TemporaryDirectory(prefix="gtm_") as d:
        src = os.path.join(d, "l.cpp")
        open(src, "w").write(code)
        lay = dump(src, types, defs)
        o = std.options(presets.split(","))
        mod = core.ir(src, defs=defs, **o)
    res = {}
    for n in types:
        s = norm.Summariser(mod, "w_init_" + n, assume_in_range=True, root=core.REPO + "/").run()
        w = written(s.mem)
        fields = [(off, p, t) for off, p, t in lay[n] if not skip(p, t)]
        res[n] = (len(fields), [(off, ".".join(x for x in p[1:] if not x.endswith(")"))) for off, p, t in fields if off not in w])
    return res
