"""Exception handlers of the library: whatever is caught leaves again.

A handler of a reader that completes normally turns a refusal into a silent
acceptance of the rest of the file.  Decided on the control-flow graph clang
emits, before any optimisation: from the block that enters the handler follow
every edge but the unwinding ones; a `return` that is reached is a path on which
the error is lost.  When the handler never throws itself but the function
returns a value, or the code behind the guarded region can still throw (the handler
only remembers the failure), what becomes of it is not followed: undecided.  So is a
handler around code in which the library itself throws nothing (a failed look-up
that is dealt with)."""
import os
import re
import core


def lands(block):
    for i in block["i"]:
        if i["op"] == "phi":
            continue
        return i["op"] == "landingpad"
    return False


def calls(block, names):
    return any(i["op"] in ("call", "invoke") and i.get("callee") in names for i in block["i"])


def walk(blocks, start, stop=lambda b: False, within=None):
    seen, todo = set(), list(start)
    while todo:
        b = todo.pop()
        if b in seen or lands(blocks[b]) or (within is not None and b in within):
            continue
        seen.add(b)
        if stop(blocks[b]):
            continue
        todo += blocks[b]["succs"]
    return seen


def throwers(j):
    """functions that throw, themselves or through a library function they call"""
    own = {n for n, f in j["functions"].items()
           if any(l and l[0].startswith(core.SRC) for x in f["blocks"] for i in x["i"] for l in i["loc"])}
    t = {"__cxa_throw", "__cxa_rethrow"}
    while True:
        more = {n for n in own - t if any(calls(x, t) for x in j["functions"][n]["blocks"])}
        if not more:
            return t
        t |= more


def judge(blocks, b, throwing):
    """'leaves', 'lost' or 'unclear' for the handler entered in block b"""
    ends = lambda x: calls(x, ("__cxa_end_catch",))
    inside = walk(blocks, [b], ends)
    behind = [s for x in inside if ends(blocks[x]) for s in blocks[x]["succs"]]
    inner_throw = any(calls(blocks[x], ("__cxa_throw", "__cxa_rethrow")) for x in inside)
    into, todo = set(), [b]
    while todo:
        x = todo.pop()
        if x not in into:
            into.add(x)
            if not lands(blocks[x]):
                todo += blocks[x]["preds"]
    # the guarded region: whatever unwinds into this handler
    guarded = {p for x in into if lands(blocks[x]) for p in blocks[x]["preds"]}
    after = walk(blocks, behind) | {x for x in inside if any(i["op"] == "ret" for i in blocks[x]["i"])}
    if not any(i["op"] == "ret" for x in after for i in blocks[x]["i"]):
        return "leaves"
    if not any(calls(blocks[x], throwing) for x in guarded):
        return "unclear"
    if inner_throw:
        return "lost"
    free = walk(blocks, behind, within=guarded)
    if any(i["op"] == "ret" and i["o"] for x in after for i in blocks[x]["i"]) or \
            any(i["op"] in ("call", "invoke") and i.get("callee") in throwing for x in free for i in blocks[x]["i"]):
        return "unclear"
    return "lost"


def run(c, witness, rule="handlers"):
    try:
        j = core.ir(os.path.join(core.WIT, witness), raw=True, roots=[""])
    except core.CompileError as e:
        c.undec(rule, witness, "does not compile: " + "; ".join("%s:%s %s" % x for x in core.parse_errors(e.errors)[:2]))
        return
    seen = {}
    throwing = throwers(j)
    n = 0
    for name, f in sorted(j["functions"].items()):
        blocks = {x["id"]: x for x in f["blocks"]}
        own = False
        for x in f["blocks"]:
            for i in x["i"]:
                own = own or any(l and l[0].startswith(core.SRC) for l in i["loc"])
                if i.get("callee") != "__cxa_begin_catch":
                    continue
                where = next((l for l in i["loc"] if l[0].startswith(core.SRC)), None)
                if where is None:
                    continue
                v = judge(blocks, x["id"], throwing)
                key = "%s:%d" % (os.path.relpath(where[0], core.SRC), where[1])
                worse = {"leaves": 0, "unclear": 1, "lost": 2}
                if key not in seen or worse[v] > worse[seen[key][0]]:
                    seen[key] = (v, j["demangled"].get(name, name))
        n += own
    for key, (v, fn) in sorted(seen.items()):
        if v == "leaves":
            c.ok(rule, key)
        elif v == "unclear":
            c.undec(rule, key, "the handler remembers the failure or deals with one that is not the library's")
        else:
            c.bad(rule, key.split(":")[0] + ": " + re.sub(r"<.*", "", fn), os.path.join(core.SRC, key), "the handler at %s in %s can complete normally: the error it caught is lost" % (key, fn))
    if n:
        c.ok(rule, "%d library functions scanned, %d handlers" % (n, len(seen)))
    else:
        c.undec(rule, witness, "no library code in the witness")
