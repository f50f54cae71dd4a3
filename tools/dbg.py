#!/usr/bin/env python3
"""dbg.py witness.cpp SECTION NAME [specN]: where two normal forms part"""
import os, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv, norm, std
path = os.path.join(core.WIT, sys.argv[1])
pre, secs = equiv.read(path)
sec = [s for s in secs if s.name == sys.argv[2]][0]
src = tempfile.mktemp(suffix=".cpp")
open(src, "w").write(pre + "\n" + "".join(sec.text))
o = std.options(str(sec.opts.get("std", "")).split(","))
for k in ("opaque", "pure", "argmem", "unroll"):
    if k in sec.opts:
        o[k] = o.get(k, []) + sec.opts[k].split(";;")
mod = core.ir(src, **o)
n = sys.argv[3]
sp = sys.argv[4] if len(sys.argv) > 4 else "spec"
S = lambda f: norm.Summariser(mod, f, assume_in_range="range" not in sec.opts, single="float" in sec.opts, root=core.REPO + "/").run()
a, b = S("w_impl_" + n), S("w_%s_%s" % (sp, n))
def show(t, x, y):
    x, y = norm.expand(str(x), 1), norm.expand(str(y), 1)
    k = 0
    while k < min(len(x), len(y)) and x[k] == y[k]:
        k += 1
    print("==", t, "len", len(x), len(y), "differ at", k)
    print("   impl ..." + x[max(0, k - 300):k] + " >>>> " + x[k:k + 700])
    print("   spec ..." + y[max(0, k - 300):k] + " >>>> " + y[k:k + 700])
print("loops impl", [(k, v["line"]) for k, v in a.loops.items()])
print("loops spec", [(k, v["line"]) for k, v in b.loops.items()])
la = [k for k in a.loops if k not in b.loops]
lb = [k for k in b.loops if k not in a.loops]
print(len(la), len(lb), "of", len(a.loops), len(b.loops), "loops differ")
for x, y in zip(la, lb):
    for f in ("exits", "writes", "trace"):
        if str(a.loops[x][f]) != str(b.loops[y][f]):
            show("%s %s %s" % (a.loops[x]["line"], b.loops[y]["line"], f), a.loops[x][f], b.loops[y][f])
if not la and not lb or "-a" in sys.argv:
    for d in norm.compare(a, b):
        print(norm.expand(d, 1)[:3000])
