import os, sys, re, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv

# the macros of the debug headers in the enabled and in the disabled mode
HEADER = "GTMesh/Debug/Debug.h"


def table(off):
    """{name: (parameters, place)} of the DBG... macros the library's headers define"""
    with tempfile.TemporaryDirectory(prefix="gtm_") as d:
        src = os.path.join(d, "m.cpp")
        open(src, "w").write("#include <%s>\n" % HEADER)
        r = core.sh([core.CLANG] + core.base_flags(["UNDEBUG"] if off else []) + ["-E", "-dD", "-w", src])
        if r.returncode:
            raise core.Broken(r.stderr[:400])
    out, where, line = {}, None, 0
    for t in r.stdout.split("\n"):
        m = re.match(r'# (\d+) "([^"]*)"', t)
        if m:
            line, where = int(m.group(1)) - 1, m.group(2)
            continue
        line += 1
        m = re.match(r"#(define|undef) (\w+)(\([^)]*\))?", t)
        if m and where and where.startswith(core.SRC) and re.match(r"DBG(?!LOG)[A-Z_]*$", m.group(2)):
            if m.group(1) == "undef":
                out.pop(m.group(2), None)
            else:
                out[m.group(2)] = (m.group(3), "%s:%d" % (os.path.relpath(where, core.REPO), line))
    return out


def arity(p):
    if p is None:
        return "no list"
    q = [x.strip() for x in p.strip("()").split(",") if x.strip()]
    return "at least %d" % (len(q) - 1) if q and q[-1].endswith("...") else "%d" % len(q)


def main():
    c = core.Check("C15")
    on, off = table(False), table(True)
    if len(off) < 5 or len(on) < 5:
        raise core.Broken("no debug macros found")
    for n in sorted(set(on) | set(off)):
        if n not in off:
            c.bad("both modes", n, on[n][1], "%s is defined when debugging is enabled but not when it is disabled" % n)
        elif n not in on:
            c.bad("both modes", n, off[n][1], "%s is defined when debugging is disabled but not when it is enabled" % n)
        elif (on[n][0] is None) != (off[n][0] is None):
            c.bad("both modes", n, off[n][1], "%s takes arguments in one mode only" % n)
        else:
            c.ok("both modes", "%s: %s arguments enabled, %s disabled" % (n, arity(on[n][0]), arity(off[n][0])))
    equiv.run(c, "debug_macros.cpp")
    c.finish("the same macros exist in both modes; disabled ones evaluate nothing and have no effect on what surrounds them, enabled ones forward each argument, evaluated once, with the place of the call")


core.main(main)
