import os, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv

# what excludes a second thread from the code it dominates
LOCKS = ("__cxa_guard_acquire", "pthread_once", "pthread_mutex_lock", "pthread_rwlock_wrlock", "call_once", "__gthread_once")
UNLOCKS = ("__cxa_guard_release", "__cxa_guard_abort", "pthread_mutex_unlock", "pthread_rwlock_unlock", "__cxa_atexit", "_Unwind_Resume", "__dynamic_cast")


def dominators(blocks):
    ids = [b["id"] for b in blocks]
    dom = {i: set(ids) for i in ids}
    dom[ids[0]] = {ids[0]}
    ch = True
    while ch:
        ch = False
        for b in blocks[1:]:
            ps = [dom[p] for p in b["preds"] if p in dom]
            n = (set.intersection(*ps) if ps else set()) | {b["id"]}
            if n != dom[b["id"]]:
                dom[b["id"]], ch = n, True
    return dom


def globals_of(ins):
    return {m["n"] for m in ins.get("o", []) if m.get("k") == "g"} | {g for m in ins.get("o", []) if m.get("k") not in ("g",) for g in find(m)}


def find(m):
    if isinstance(m, dict):
        if m.get("k") == "g":
            return {m["n"]}
        return set().union(*[find(v) for v in m.values()]) if m else set()
    if isinstance(m, list):
        return set().union(*[find(v) for v in m]) if m else set()
    return set()


def where(ins):
    for f, l, fn in ins.get("loc", []):
        if f.startswith(core.REPO + "/"):
            return "%s:%d (%s)" % (f, l, fn)
    return "?"


def threads(c, name="threads", objects="ABP"):
    path = os.path.join(core.WIT, "singleton.cpp")
    pre, secs = equiv.read(path)
    sec = [s for s in secs if s.name == name][0]
    res, mod = equiv.compile_section(path, pre, sec)
    if mod is None or not mod:
        for g, inst, st, w, det in res:
            c.bad(g, inst, w, det)
        return
    used = {}
    for T in objects:
        f = mod["functions"]["w_get_" + T]
        blocks = [b for b in f["blocks"] if not b.get("dead")]
        dom = dominators(blocks)
        at = {b["id"]: [k for k, i in enumerate(b["i"]) if any(l in i.get("callee", "") for l in LOCKS)] for b in blocks}
        local = {i["id"] for b in blocks for i in b["i"] if i["op"] == "alloca"}
        made, bad = [], None
        used[T] = set()
        for b in blocks:
            for k, i in enumerate(b["i"]):
                callee = mod["demangled"].get(i.get("callee", ""), i.get("callee", "")) if isinstance(mod["demangled"], dict) else i.get("callee", "")
                raw = i.get("callee", "")
                if i["op"] in ("load", "store", "call", "invoke"):
                    used[T] |= {g for g in find(i.get("o", [])) if g in mod["globals"] and not mod["globals"][g].get("const") and not g.startswith(("__dso", "llvm.", ".str"))}
                if raw == "made":
                    made.append((b, i))
                held = any(at[d] for d in dom[b["id"]] if d != b["id"]) or any(x < k for x in at[b["id"]])
                if held:
                    continue
                if i["op"] == "store" and not any(o.get("k") == "v" and o.get("id") in local for o in i["o"][1:]):
                    bad = bad or ("a write reached by every thread at once", i)
                elif i["op"] in ("call", "invoke") and not raw.startswith("llvm.") and not any(l in raw for l in LOCKS + UNLOCKS):
                    bad = bad or ("a call of %s reached by every thread at once" % callee, i)
        if bad:
            c.bad("threads", "first access", where(bad[1]), "the object is constructed without exclusion of other threads: " + bad[0])
        else:
            c.ok("threads", "first access of %s: every write and call follows the acquisition of the guard" % T)
        shared = [g for g in used[T] if mod["globals"][g].get("tls")]
        if shared:
            c.bad("threads", "every thread", where(blocks[0]["i"][0]), "each thread has its own " + ", ".join(sorted(shared)))
        if name != "threads":
            continue
        if len(made) != 1 or made[0][0].get("loops"):
            c.bad("one construction", T, where(made[0][1]) if made else "?", "the object is constructed in %d places or in a loop" % len(made))
        else:
            c.ok("one construction", "%s: %s" % (T, where(made[0][1])))
    for a, b in () if name != "threads" else ("AB", "AP", "BP"):
        both = used[a] & used[b]
        if both:
            c.bad("per type", a + b, "?", "two types share " + ", ".join(sorted(both)))
        else:
            c.ok("per type", "%s and %s share no variable (%d, %d)" % (a, b, len(used[a]), len(used[b])))


def main():
    c = core.Check("C50")
    equiv.run(c, "singleton.cpp")
    threads(c)
    threads(c, "console", "C")
    c.finish("a further access yields the same object and does nothing; the one construction is excluded from concurrent execution; types share nothing; copies are rejected")


core.main(main)
