"""Witness-driven value-flow checks.

A witness file instantiates the library's public interface.  Its sections are
compiled against /repo's current headers (never linked, never run); in every
section
   w_impl_X  must have the same normal form as w_spec_X (or w_spec2_X, ...),
   w_true_X  must fold to `true` on every path,
   w_throw_X must leave by an exception on every path.
"""
import os
import re
import tempfile
import core
import norm
import std


class Section:
    def __init__(self, kind, name, opts, text, line):
        self.kind, self.name, self.opts, self.text, self.line = kind, name, opts, text, line


def read(path):
    pre, secs, cur = [], [], None
    for ln, line in enumerate(open(path), 1):
        m = re.match(r"//@ (\w+)\s*(.*)$", line)
        if m:
            kind, rest = m.group(1), m.group(2).split()
            if kind == "preamble":
                cur = pre
                continue
            opts = {}
            for o in rest[1:]:
                k, _, v = o.partition("=")
                opts[k] = v or True
            s = Section(kind, rest[0], opts, ['#line %d "%s"\n' % (ln + 1, path)], ln)
            secs.append(s)
            cur = s.text
            continue
        if cur is None:
            cur = pre
        cur.append(line)
    return "".join(pre), secs


def impl_loc(summ, fn):
    for s in summ.sites:
        ins = s[3]
        L = [x for x in ins.get("loc", []) if x[0].startswith(core.REPO + "/")]
        if L:
            return "%s:%d (%s)" % tuple(L[0])
    return fn


def err_loc(text):
    errs = core.parse_errors(text)
    notes = re.findall(r"^(%s/[^:]+:\d+):\d+: (?:note|error)" % re.escape(core.REPO), text, re.M)
    where = notes[0] if notes else ("%s:%d" % errs[0][:2] if errs else "?")
    return where, "; ".join("%s:%d: %s" % e for e in errs[:3])


def compile_section(path, pre, sec, defs=()):
    """either the results (sections decided by the front end) or the program"""
    defs = list(defs) + (["MODE_%s" % str(sec.opts["mode"]).upper()] if "mode" in sec.opts else [])
    with tempfile.TemporaryDirectory(prefix="gtm_") as d:
        src = os.path.join(d, "w.cpp")
        with open(src, "w") as f:
            f.write(pre + "\n" + "".join(sec.text))
        if sec.kind in ("compile", "nocompile"):
            rc, err = core.syntax(src, defs)
            if sec.kind == "compile":
                if rc == 0:
                    return [(sec.name, "compiles", "ok", "", "")], None
                w, det = err_loc(err)
                return [(sec.name, "compiles", "bad", w, "required to compile but: " + det)], None
            if rc == 0:
                return [(sec.name, "rejected", "bad", path, "required to be rejected by the compiler but is accepted")], None
            return [(sec.name, "rejected", "ok", "", "")], None
        o = std.options(str(sec.opts.get("std", "")).split(","))
        for k in ("opaque", "pure", "argmem", "unroll"):
            if k in sec.opts:
                o[k] = o.get(k, []) + sec.opts[k].split(";;")
        try:
            return [], core.ir(src, defs=defs, extra=str(sec.opts["flags"]).split(";;") if "flags" in sec.opts else (), **o)
        except core.Late as e:
            return [(sec.name, "program", "undec", "", str(e))], None
        except core.CompileError as e:
            w, det = err_loc(e.errors)
            if "maybe" in sec.opts:     # a rule about members that are not part of the interface
                return [(sec.name, "program", "undec", "", "the members this rule speaks of are no longer there: " + det)], None
            first = re.split(r"\berror: ", e.errors, maxsplit=2)
            if "model_" in (first[1] if len(first) > 1 else ""):
                # the reference models of the standard library offer less than the implementation now uses;
                # whether it compiles with the real one is what C44 decides
                return [(sec.name, "program", "model", "", "the reference models do not offer what is used here: " + det)], None
            return [(sec.name, "instantiation", "bad", w, "the interface used by this rule no longer compiles: " + det)], None


def decide(path, sec, mod, f):
    """result of the obligation stated by witness function f"""
    S = {}

    def summ(f):
        norm.NOHEAP = "noheap" in sec.opts
        try:
            return norm.Summariser(mod, f, assume_in_range="range" not in sec.opts, single="float" in sec.opts, root=core.REPO + "/").run()
        except norm.Unsupported as e:
            return e
        except RecursionError:
            return norm.Unsupported("recursion")
    a = summ(f)
    if f.startswith("w_impl_"):
        n = f[7:]
        specs = [g for g in sorted(mod["functions"]) if re.match(r"w_spec\d*_%s$" % re.escape(n), g)]
        if not specs:
            raise core.Broken("%s: no reference for %s" % (path, n))
        if isinstance(a, norm.Unsupported):
            return (sec.name, n, "undec", "", str(a))
        best = None
        for g in specs:
            b = summ(g)
            if isinstance(b, norm.Unsupported):
                raise core.Broken("reference %s: %s" % (g, b))
            df = norm.compare(a, b)
            if not df:
                return (sec.name, n, "ok", impl_loc(a, f), "")
            ex = norm.explain(a, b) or [norm.expand(x, 1)[:900] for x in df]
            best = best or ex
        # a search through a text that was not carried out is a limit of the analysis
        if any("model_text.h" in str(v["line"]) for v in a.loops.values()):
            return (sec.name, n, "undec", "", "a search through a text depends on more than known characters")
        return (sec.name, n, "bad", impl_loc(a, f), " | ".join(x[:900] for x in best[:4]))
    if isinstance(a, norm.Unsupported):
        return (sec.name, f[2:], "undec", "", str(a))
    lv = norm.leaves(a.outcome)
    if f.startswith("w_true_"):
        bad = [(p, l) for p, l in lv if l not in (("ret", True), ("ret", norm.ONE))]
        what = "the law does not hold"
    else:
        bad = [(p, l) for p, l in lv if l[0] != "throw"]
        what = "no exception is raised"
    if bad:
        return (sec.name, f[2:], "bad", impl_loc(a, f), "%s when %s (value %s)" % (
            what, norm.expand(" and ".join(("" if s else "not ") + v for v, s in bad[0][0]) or "always", 1)[:600], norm.expand(str(bad[0][1]), 1)[:300]))
    return (sec.name, f[2:], "ok", impl_loc(a, f), "")


def tasks(mod):
    return [f for f in sorted(mod["functions"]) if f.startswith(("w_impl_", "w_true_", "w_throw_"))]


def run_section(path, pre, sec, defs=()):
    """[(group, instance, ok|bad|undec, where, detail)]"""
    res, mod = compile_section(path, pre, sec, defs)
    if mod:
        res = res + core.fork_map(lambda f: decide(path, sec, mod, f), tasks(mod), lost=lambda f, why: (sec.name, f[7:], "undec", "", why))
    return res


def run(check, path, only=None, defs=(), names=None):
    """run all sections (or those in only) of a witness file, or the functions whose name fits, and book the results"""
    path = os.path.join(core.WIT, path)
    pre, secs = read(path)
    core.tool("irx")
    secs = [s for s in secs if (only is None or s.name in only) and (check.tier == "thorough" or "thorough" not in s.opts)]
    mods = core.pmap(lambda s: compile_section(path, pre, s, defs), secs)
    todo = [(s, m, f) for s, (_r, m) in zip(secs, mods) if m for f in tasks(m) if not names or re.search(names, f)]
    done = core.fork_map(lambda t: decide(path, *t), todo, lost=lambda t, why: (t[0].name, t[2][7:], "undec", "", why))
    out = [r for r, _m in mods] + [done]
    tot = und = 0
    for rs in out:
        for g, inst, st, where, det in rs:
            tot += 1
            if st == "model":
                check.undec(g, inst, det)
            elif st == "ok":
                check.ok(g, "%s: %s" % (inst, where) if where else inst)
            elif st == "bad":
                check.bad(g, inst, where, det)
            else:
                und += 1
                check.undec(g, inst, det)
    if tot == 0 or und * 5 > tot * 4:
        raise core.Broken("%s: %d of %d obligations undecidable" % (path, und, tot))
    return tot
