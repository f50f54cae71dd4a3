#!/usr/bin/env python3
"""Make a planted bug from a description and confirm it in a scratch copy.

   seed.py NAME FILE      FILE is a Python file defining
       prop, needs, breaks, edits = [(path under src/GTMesh, old, new), ...], demo (C++ source), [flags]
The scratch copy lives in /tmp and is removed."""
import sys, os, subprocess, shutil, json, tempfile
name, spec = sys.argv[1:3]
ns = {}
exec(open(spec).read(), ns)
out = "/verif/seeded/" + name
w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
try:
    subprocess.check_call(["cp", "-a", "/repo/.", w])
    for path, old, new in ns["edits"]:
        f = os.path.join(w, "src/GTMesh", path)
        s = open(f).read()
        assert s.count(old) == 1, (path, s.count(old))
        open(f, "w").write(s.replace(old, new))
    os.makedirs(out, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.cpp", "w").write(ns["demo"].lstrip("\n"))
    open(out + "/demo.sh", "w").write("""#!/bin/bash
# cwd is the repository; compiles the small program beside this script against its headers
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
repo="$(pwd)"
g++ -std=c++14 -O1 %s -I "$repo/src/GTMesh" -I "$repo/src" -I "$repo/tests/UnstructuredMesh" -o "$tmp/demo" "$here/demo.cpp" || exit 3
cd "$tmp" && timeout 60 ./demo > out.txt 2>&1
""" % ns.get("flags", "-w"))
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    def demo(cwd):
        return subprocess.run(["bash", out + "/demo.sh"], cwd=cwd, capture_output=True, text=True)
    a = demo("/repo"); b = demo(w)
    print("demo unpatched:", a.returncode, a.stderr[-800:]); print("demo patched:", b.returncode, b.stderr[-800:])
    # stable tests on the patched copy: build with the copy's own cmake tree
    bd = tempfile.mkdtemp(prefix="seedb_", dir="/tmp")
    r = subprocess.run(["bash", "-c", "cd %s && git stash -q; git -C /repo apply --check %s/patch.diff" % (w, out)], capture_output=True, text=True)
    print("applies:", r.returncode, r.stderr)
    shutil.rmtree(bd)
finally:
    shutil.rmtree(w)
try:
    subprocess.check_call(["git", "-C", "/repo", "apply", out + "/patch.diff"])
    r = subprocess.run("bash /opt/vp/build.sh >/tmp/sb.log 2>&1 && bash /opt/vp/test.sh /tmp/so.json 2>&1 | tail -1", shell=True, capture_output=True, text=True)
    st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); ps = set(json.load(open("/tmp/so.json"))["passed"])
    print("build+tests:", r.stdout.strip(), r.returncode, "STABLE OK" if st <= ps else "STABLE BROKEN %s" % (st - ps))
    p = ns["prop"]
    r = subprocess.run(["bash", "/verif/run.sh", p, "quick"], cwd="/verif", capture_output=True, text=True)
    print("check %s: rc %d" % (p, r.returncode)); print("\n".join(l[:300] for l in r.stdout.splitlines() if "VIOLATION" in l or "bad" in l.lower())[:1500] or r.stdout[-600:])
finally:
    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    subprocess.run("bash /opt/vp/build.sh >/tmp/sb.log 2>&1", shell=True)
