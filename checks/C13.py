import os, sys, re, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv

# every header that calls a formatted-output function, with every overload and
# template instantiated, through the front end's format checker
USE = """
#include <vector>
#include <string>
#include <map>
%s
#include <GTMesh/Debug/ConsoleLogger.h>
struct C { int a; unsigned long b; const char* c; double d; unsigned char e; };
MAKE_ATTRIBUTE_TRAIT(C, a, b, c, d, e);
struct U { char x[3]; };
template <class T> void use(const T& t) {
    VariableExport::exportVariable(t);
    ConsoleLogger::writeVarC(1, "f", "g", "n", t, "m", t);
    ConsoleLogger::writeMessageC("++", 1, "f", "g", t, t);
}
template <class... T> void all() { int x[] = {(use<T>(*static_cast<T*>(nullptr)), 0)...}; (void)x; }
template void all<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long,
    float, double, long double, void*, const char*, char*, int*, std::string, std::vector<int>, std::map<int, double>, std::pair<long, short>, std::tuple<int, long>, C, U>();
"""
CALL = re.compile(r"\b(?:std::)?(v?(?:f|s|sn|d)?printf|v?(?:f|s)?scanf)\s*\(")


def main():
    c = core.Check("C13")
    equiv.run(c, "formats.cpp")
    src = os.path.join(core.REPO, "src")
    heads, calls = [], {}
    for d, _s, fs in os.walk(os.path.join(src, "GTMesh")):
        for f in sorted(fs):
            if not f.endswith((".h", ".hpp", ".cpp")):
                continue
            p = os.path.join(d, f)
            t = open(p, errors="replace").read()
            t = re.sub(r"//[^\n]*|/\*.*?\*/", lambda m: "\n" * m.group(0).count("\n"), t, flags=re.S)
            n = len(CALL.findall(t))
            if n:
                calls[os.path.relpath(p, core.REPO)] = n
                heads.append(os.path.relpath(p, src))
    with tempfile.TemporaryDirectory(prefix="gtm_") as d:
        s = os.path.join(d, "f.cpp")
        # printers are only complete after VariableExport.h
        open(s, "w").write(USE % "".join('#include <%s>\n' % h for h in ["GTMesh/Debug/VariableExport.h"] + sorted(heads)))
        r = core.sh([core.CLANG] + core.base_flags(()) + ["-fsyntax-only", "-ferror-limit=0", "-Wno-everything", "-Wformat", "-Wformat-pedantic",
                                                          "-Wformat-extra-args", "-Wformat-insufficient-args", "-Wformat-security", "-fno-caret-diagnostics", s])
    errs = core.parse_errors(r.stderr)
    if errs:
        c.bad("conversions", "compiles", "%s:%d" % errs[0][:2], "the formatted output can no longer be instantiated: " + errs[0][2])
    seen = set()
    for m in re.finditer(r"^(.+?):(\d+):(\d+): warning: (.*)$", r.stderr, re.M):
        k = (m.group(1), m.group(2), m.group(4))
        if k not in seen:
            seen.add(k)
            f = os.path.relpath(m.group(1), core.REPO)
            c.bad("conversions", "%s: %s" % (f, m.group(4)), "%s:%s" % k[:2], m.group(4))
    for f, n in sorted(calls.items()):
        if not any(os.path.relpath(k[0], core.REPO) == f for k in seen):
            c.ok("conversions", "%s: %d calls" % (f, n), n)
    c.finish("each formatted-output call writes exactly the reference sequence of characters and values; no conversion names a type other than its argument's")


core.main(main)
