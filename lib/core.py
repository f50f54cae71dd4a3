"""Shared machinery of the checks: tool build, witness compilation, reporting."""
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import os
import re
import resource
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GTMESH_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CXXSTD = "-std=c++14"
LLVM = "/usr/lib/llvm-18"
CLANG = "clang++-18"
WIT = os.path.join(VERIF, "witness")
BUILD = os.path.join(VERIF, "build")


class Broken(Exception):
    """the analysis itself cannot run (never a pass, never a violation)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def tool(name):
    src = os.path.join(VERIF, "tools", name, name + ".cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s-%s" % (name, h))
    if os.path.exists(out):
        return out
    tmp = out + ".%d" % os.getpid()
    flags = sh(["llvm-config-18", "--cppflags"]).stdout.split()
    libs = ["-lLLVM-18"] if name == "irx" else ["-lclang-cpp", "-lLLVM-18"]
    r = sh([CLANG, "-O1", "-std=c++17", "-fno-rtti", "-w"] + flags + [src, "-o", tmp, "-L" + LLVM + "/lib"] + libs)
    if r.returncode:
        raise Broken("cannot build %s: %s" % (name, r.stderr[-2000:]))
    os.replace(tmp, out)
    return out


def base_flags(defs=()):
    return [CXXSTD, "-I" + SRC, "-I" + os.path.join(WIT, "include")] + ["-D" + d for d in defs]


class Late(Exception):
    """a step over its time limit"""


class CompileError(Exception):
    def __init__(self, msg, errors):
        super().__init__(msg)
        self.errors = errors


def parse_errors(text):
    """[(file, line, message)] of the clang diagnostics that are errors"""
    out = []
    for m in re.finditer(r"^(.+?):(\d+):(\d+): (?:fatal )?error: (.*)$", text, re.M):
        out.append((m.group(1), int(m.group(2)), m.group(4)))
    return out


def syntax(src, defs=(), extra=()):
    r = sh([CLANG] + base_flags(defs) + ["-fsyntax-only", "-ferror-limit=0", "-w", "-fno-caret-diagnostics"] + list(extra) + [src])
    return r.returncode, r.stderr


def ir(src, opaque=(), pure=(), argmem=(), unroll=(), keep=(), roots=(), defs=(), extra=(), raw=False, opt="-O2"):
    """compile a witness translation unit against /repo's current headers and
    return the canonical JSON program"""
    t = tool("irx")
    with tempfile.TemporaryDirectory(prefix="gtm_") as d:
        bc = os.path.join(d, "m.bc")
        js = os.path.join(d, "m.json")
        r = sh([CLANG] + base_flags(defs) + [opt, "-Xclang", "-disable-llvm-passes", "-fno-math-errno", "-ffp-contract=off", "-w",
                                              "-fno-caret-diagnostics", "-ferror-limit=0",
                                              "-g", "-c", "-emit-llvm", src, "-o", bc] + list(extra))
        if r.returncode:
            raise CompileError("witness %s does not compile" % src, r.stderr)
        cmd = [t, bc, js] + ["--opaque=" + x for x in opaque] + ["--pure=" + x for x in pure] + \
            ["--argmem=" + x for x in argmem] + ["--unroll=" + x for x in unroll] + ["--keep=" + x for x in keep] + ["--root=" + x for x in roots] + \
            (["--raw"] if raw else [])
        try:
            r = sh(cmd, timeout=TASK_SECONDS)
        except subprocess.TimeoutExpired:
            raise Late("optimising %s took too long" % src)
        if r.returncode:
            raise Broken("irx failed on %s: %s" % (src, r.stderr[-2000:]))
        return json.load(open(js))


def pmap(f, xs, n=8):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))


START = time.time()
THOROUGH = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
TASK_SECONDS = 1500 if THOROUGH else 240
TOTAL_SECONDS = 7000 if THOROUGH else 720
TASK_BYTES = 3800 << 20


def _worker(f, xs, pipe):
    try:
        vm = int(open("/proc/self/statm").read().split()[0]) * resource.getpagesize()
        resource.setrlimit(resource.RLIMIT_AS, (vm + TASK_BYTES, vm + TASK_BYTES))
    except (OSError, ValueError):
        pass
    while True:
        i = pipe.recv()
        if i is None:
            return
        try:
            r = ("ok", f(xs[i]))
        except Broken as e:
            r = ("broken", str(e))
        except (MemoryError, SystemError):
            os._exit(7)
        pipe.send(r)


def fork_map(f, xs, n=8, lost=None):
    """map in forked processes: f and xs need not be picklable, the results do.
    An item over the time or memory limit gives lost(item, reason)."""
    ctx = multiprocessing.get_context("fork")
    out = [None] * len(xs)
    todo = list(range(len(xs)))[::-1]
    busy = {}

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(f, xs, b), daemon=True)
        p.start()
        b.close()
        return p, a

    def give(w):
        if todo:
            i = todo.pop()
            w[1].send(i)
            busy[w[1]] = (w, i, time.time())
        else:
            w[1].send(None)
            w[0].join()

    def lose(i, why):
        if lost is None:
            raise Broken("the analysis of %s %s" % (str(xs[i])[:200], why))
        out[i] = lost(xs[i], why)
    try:
        for _ in range(min(n, len(xs))):
            give(start())
        while busy:
            for c in multiprocessing.connection.wait(list(busy), 2):
                w, i, _t = busy.pop(c)
                try:
                    k, r = c.recv()
                except (EOFError, OSError):
                    w[0].join()
                    lose(i, "ran out of memory" if w[0].exitcode in (7, -9) else "ended abnormally (%s)" % w[0].exitcode)
                    if todo:
                        give(start())
                    continue
                if k == "broken":
                    raise Broken(r)
                out[i] = r
                give(w)
            now = time.time()
            late = now - START > TOTAL_SECONDS
            for c in [c for c, b in busy.items() if late or now - b[2] > TASK_SECONDS]:
                w, i, _t = busy.pop(c)
                w[0].kill()
                w[0].join()
                lose(i, "took too long")
                if todo and not late:
                    give(start())
            if late:
                while todo:
                    lose(todo.pop(), "was not reached in time")
    finally:
        for w, _i, _t in busy.values():
            w[0].kill()
    return out


# ------------------------------------------------------------------- reporting
CURRENT = []


class Check:
    def __init__(self, pid, level="proof"):
        CURRENT.append(self)
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.groups = {}
        self.viol = []
        self.samples = []
        self.notes = []
        self.assumptions = []
        self.undecided = []
        self.known = load_known(pid)
        self.known_hit = []

    def ok(self, group, what=None, n=1):
        self.obligations += n
        self.discharged += n
        g = self.groups.setdefault(group, [0, 0])
        g[0] += n
        if what and len([s for s in self.samples if s.startswith(group)]) < 4:
            self.samples.append("%s: %s" % (group, what))

    def bad(self, group, instance, where, detail):
        self.obligations += 1
        g = self.groups.setdefault(group, [0, 0])
        g[0] += 1
        key = "%s|%s" % (group, instance)
        for k, text in self.known:
            if k == key:
                self.known_hit.append((key, text))
                return
        g[1] += 1
        self.viol.append((group, instance, where, detail))

    def undec(self, group, instance, why):
        self.undecided.append("%s: %s: %s" % (group, instance, why))

    def require(self, group, n):
        """rule-instance floor confirmed by hand"""
        got = self.groups.get(group, [0, 0])[0]
        if got < n:
            raise Broken("rule %s matched %d instances, at least %d expected" % (group, got, n))

    def finish(self, rule, trusted=None, explanation=None, extra=None):
        cov = {"obligations": self.obligations, "discharged": self.discharged,
               "checker_cmd": "./run.sh %s %s" % (self.pid, self.tier),
               "trusted_base": trusted or ["clang 18 front end and LLVM 18 scalar passes", "lib/norm.py value numbering"],
               "rule": rule,
               "groups": {g: {"instances": v[0], "violations": v[1]} for g, v in sorted(self.groups.items())},
               "samples": self.samples[:60]}
        if explanation:
            cov["explanation"] = explanation
        if self.undecided:
            cov["undecided"] = self.undecided
        if extra:
            cov.update(extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        print("%s: %d obligations, %d discharged, %d violations, %d undecided, %.1fs" % (
            self.pid, self.obligations, self.discharged, len(self.viol), len(self.undecided), time.time() - self.t0))
        for g, v in sorted(self.groups.items()):
            print("  rule %-40s instances %4d violations %d" % (g, v[0], v[1]))
        for key, text in self.known_hit:
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, text, key))
        if self.viol:
            rep = os.path.join(VERIF, "evidence", self.pid + ".violation.txt")
            with open(rep, "w") as f:
                for g, inst, where, det in self.viol:
                    s = "%s: rule %s: %s\n    %s" % (where, g, inst, det)
                    f.write(s + "\n")
                    print(s[:1500])
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            sys.exit(1)
        sys.exit(0)


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S.*?) :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main(fn):
    try:
        fn()
    except CompileError as e:
        # the library no longer offers what the rule instantiates
        errs = parse_errors(e.errors)
        inrepo = [x for x in errs if x[0].startswith(REPO)] or errs
        c = CURRENT[-1]
        c.bad("instantiation", "interface", "%s:%d" % inrepo[0][:2] if inrepo else "?", "; ".join("%s:%d: %s" % x for x in errs[:3]))
        c.finish("interface used by the rule")
    except Broken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        sys.exit(3)
