#!/usr/bin/env python3
"""writes witness/traits_macros.cpp: every reflection macro with every number of members"""
import os
T = ["int", "double", "char", "long", "short"]
m = lambda k: "m%d" % k
out = ['''//@ preamble
// written by tools/gen_macros.py
#include <GTMesh/Traits/Traits.h>
#define EX extern "C"
EX void visit(size_t, const void*, const char*);
template <class> struct Sized;
''']


def cls(name, n):
    return "struct %s { %s };" % (name, " ".join("%s %s;" % (T[k % 5], m(k)) for k in range(n)))


def section(title, opts, kind, ctx, template, sizes):
    out.append("//@ section %s argmem=@visit$%s\n" % (title, opts))
    tr = {"": "DefaultTraits", "_IO": "DefaultIOTraits", "_ARITHMETIC": "DefaultArithmeticTraits"}[ctx]
    for n in sizes:
        c = "C%d" % n
        full = c
        if template:
            out.append("template <class A, class B> struct %s { %s };\n" % (c, " ".join("%s %s;" % (["A", "B"][k % 2], m(k)) for k in range(n))))
            use = "%s<int, double>" % c
            ref = "&%s<A, B>::" % c
        else:
            out.append(cls(c, n) + "\n")
            use = c
            ref = "&%s::" % c
        name = {"CUSTOM": lambda k: "n%d" % (k * 7), "NAMED_ATTRIBUTE": lambda k: "name %d" % k, "ATTRIBUTE": m}[kind]
        arg = {"CUSTOM": lambda k: ('"%s", (%s%s)' if template else '"%s", %s%s') % (name(k), ref, m(k)), "NAMED_ATTRIBUTE": lambda k: '"%s", %s' % (name(k), m(k)), "ATTRIBUTE": m}[kind]
        macro = "MAKE_%s%s_TRAIT%s" % (kind, "_TEMPLATE" if template else "", ctx)
        head = "(%s<A, B>), (class A, class B)" % c if template else c
        out.append("%s(%s, %s);\n" % (macro, head, ", ".join(arg(k) for k in range(n))))
        t = "%s<%s>" % (tr, use)
        typ = (lambda k: ["int", "double"][k % 2]) if template else (lambda k: T[k % 5])
        out.append("static_assert(%s::size() == %d && %s::traitsType::size() == %d, \"number of members\");\n" % (t, n, t, n))
        out.append("static_assert(std::is_same<%s::traitsType, Traits<%s, %s>>::value, \"members\");\n" % (t, use, ", ".join("%s %s::*" % (typ(k), use) for k in range(n))))
        out.append("EX void w_impl_%d(%s& o) { auto t = %s::getTraits(); %s }\n" % (n, use, t, " ".join("visit(%d, &t.getAttr<%d>(o), t.getName<%d>());" % (k, k, k) for k in range(n))))
        out.append("EX void w_spec_%d(%s& o) { %s }\n" % (n, use, " ".join('visit(%d, &o.%s, "%s");' % (k, m(k), name(k)) for k in range(n))))


some = (1, 2, 3, 5, 11, 20)
for kind in ("ATTRIBUTE", "NAMED_ATTRIBUTE", "CUSTOM"):
    for tmpl in (False, True):
        for ctx in ("", "_IO", "_ARITHMETIC"):
            t = (kind + ("_TEMPLATE" if tmpl else "") + (ctx or "_DEFAULT")).lower()
            full = not tmpl and ctx == ""
            section(t, "", kind, ctx, tmpl, range(1, 21) if full else some)
            if not full:
                section(t + "_all", " thorough", kind, ctx, tmpl, [n for n in range(1, 21) if n not in some])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "witness", "traits_macros.cpp"), "w").write("".join(out))
