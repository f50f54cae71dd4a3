import os, re, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv

# the expansion of the iteration macros, token by token, for every number of
# arguments they accept, in both variants of the header (the ordinary one and the
# one for compilers defining _MSC_VER)
HEADER = "src/GTMesh/Macros/MacroForEach.h"
ARGS = ["x%d" % k for k in range(1, 41)]
AWKWARD = ["a (%d, (q))" % k if k % 3 == 0 else "\"t,%d\"" % k if k % 3 == 1 else "u%d < v" % k for k in range(1, 41)]


def calls(args):
    n = len(args)
    a = ", ".join(args)
    out = []
    if n:
        out.append(("FOR_EACH", "FOR_EACH(W, %s)" % a, ", ".join("W(%s)" % x for x in args)))
        out.append(("PASS", "PASS(%s)" % a, a))
        out.append(("WRAP", "WRAP(%s)" % a, "(%s)" % a))
        out.append(("UNWRAP", "UNWRAP((%s))" % a, a))
    if n and n % 2 == 0:
        out.append(("FOR_EACH_EVEN", "FOR_EACH_EVEN(W, %s)" % a, ", ".join("W(%s)" % x for x in args[1::2])))
        out.append(("FOR_EACH_2ARGS", "FOR_EACH_2ARGS(W, %s)" % a, ", ".join("W(%s, %s)" % x for x in zip(args[::2], args[1::2]))))
        out.append(("FOR_EACH_3ARGS_1STAT", "FOR_EACH_3ARGS_1STAT(W, S, %s)" % a, ", ".join("W(S, %s, %s)" % x for x in zip(args[::2], args[1::2]))))
    if n % 2 == 1:
        out.append(("FOR_EACH_ODD", "FOR_EACH_ODD(W, %s)" % a, ", ".join("W(%s)" % x for x in args[::2])))
    return out


def squeeze(t):
    return re.sub(r"\s+", "", t)


def expand(defs, items):
    with tempfile.TemporaryDirectory(prefix="gtm_") as d:
        src = os.path.join(d, "m.cpp")
        open(src, "w").write('#include <GTMesh/Macros/MacroForEach.h>\n' + "".join("@%d@ %s\n" % (i, t) for i, t in enumerate(items)))
        r = subprocess.run(["clang++", "-E", "-P", "-std=c++14", "-I", os.path.join(core.REPO, "src")] + ["-D" + x for x in defs] + [src], capture_output=True, text=True)
        if r.returncode:
            return None, r.stderr[:400]
    parts = re.split(r"@(\d+)@", r.stdout)
    return {int(k): squeeze(v) for k, v in zip(parts[1::2], parts[2::2])}, None


def macros(c):
    for defs, label in (((), ""), (("_MSC_VER=1900",), " under _MSC_VER")):
        todo = [(m, n, t, s) for args in (ARGS, AWKWARD) for n in range(0, 41) for m, t, s in calls(args[:n])]
        got, err = expand(defs, [t for _, _, t, _ in todo])
        if got is None:
            c.bad("iteration macros%s" % label, "preprocessing", HEADER, "the header does not expand: %s" % err)
            continue
        wrong = {}
        count = {}
        for i, (m, n, t, s) in enumerate(todo):
            count[m] = count.get(m, 0) + 1
            if got.get(i) != squeeze(s):
                wrong.setdefault(m, (n, got.get(i, ""), squeeze(s)))
        for m in count:
            if m in wrong:
                n, g, s = wrong[m]
                k = next((k for k in range(min(len(g), len(s))) if g[k] != s[k]), min(len(g), len(s)))
                c.bad(m + label, "%d arguments" % n, HEADER, "the expansion is ...%s instead of ...%s" % (g[max(0, k - 20):k + 40], s[max(0, k - 20):k + 40]))
            else:
                c.ok(m + label, "%d expansions compared token by token" % count[m], count[m])


def main():
    c = core.Check("C08")
    macros(c)
    equiv.run(c, "traits_macros.cpp")
    c.finish("every macro registers exactly its members, in order, under their names, for every list length; the iteration macros expand to the reference tokens for every number of arguments, in both header variants")


core.main(main)
