"""Value-flow normal forms for the canonical IR produced by tools/irx.

A function whose control flow is acyclic (constant loops are already unrolled)
is summarised, without executing it, by one pass over its CFG in topological
order - gated value numbering:

  * every SSA value becomes a polynomial over opaque atoms (arguments, memory
    reads, results of opaque calls, non-ring operations), so that the order and
    bracketing of sums, products, casts of additions to subtractions, etc. do
    not matter;
  * control dependence is kept as decision diagrams over comparison atoms, so
    that if/else order, early returns, ?: and switch do not matter;
  * memory is a map from (base, byte offset) to byte tokens, so that a field
    copy and a memcpy are the same thing.

Two functions are reported equal when their normal forms are equal.  No input
is chosen, nothing is executed and no solver is involved.
"""
from fractions import Fraction
import functools
import hashlib
import math
import re
import sys
sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


NOHEAP = False          # taking and releasing memory is of no interest


# ------------------------------------------------------------------ polynomials
class Poly:
    __slots__ = ("t", "_s", "_h")

    def __init__(self, d):
        self.t = tuple(sorted((m, c) for m, c in d.items() if c != 0))
        self._s = None
        self._h = hash(self.t)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and self.t[0][0] == ())

    def const(self):
        return self.t[0][1] if self.t else Fraction(0)

    def monomial(self):
        return len(self.t) == 1

    def split_const(self):
        c = Fraction(0)
        d = {}
        for m, k in self.t:
            if m == ():
                c = k
            else:
                d[m] = k
        return Poly(d), c

    def atoms(self):
        for m, _ in self.t:
            for a, _e in m:
                yield a

    def __str__(self):
        if self._s is None:
            if not self.t:
                self._s = "0"
            else:
                parts = []
                for m, c in self.t:
                    ms = "*".join(a if e == 1 else "%s^%d" % (a, e) for a, e in m)
                    if not ms:
                        parts.append(str(c))
                    elif c == 1:
                        parts.append(ms)
                    else:
                        parts.append("%s*%s" % (c, ms))
                self._s = "(" + " + ".join(parts) + ")" if len(parts) > 1 else parts[0]
        return self._s

    __repr__ = __str__


def K(n):
    return Poly({(): Fraction(n)})


ZERO, ONE = K(0), K(1)


def A(name):
    return Poly({((name, 1),): Fraction(1)})


def padd(a, b, kb=1):
    d = dict(a.t)
    for m, c in b.t:
        d[m] = d.get(m, 0) + kb * c
    return Poly(d)


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e != 0))


def pmul(a, b):
    if len(a.t) * len(b.t) > 72:
        # name the factors: still a function of their normal form
        if len(a.t) > 8:
            a = named(a)
        if len(b.t) > 8:
            b = named(b)
    d = {}
    for m, c in a.t:
        for n, k in b.t:
            x = mmul(m, n)
            d[x] = d.get(x, 0) + c * k
    return Poly(d)


def named(a):
    p = primitive(a)
    k = a.t[-1][1] / p.t[-1][1]
    return Poly({(("{%s}" % digest(str(p), None, True), 1),): k})


def pinv(a):
    if a.is_const():
        if a.const() == 0:
            return A("inv(0)")
        return K(1 / a.const())
    if a.monomial():
        m, c = a.t[0]
        return Poly({tuple((x, -e) for x, e in m): 1 / c})
    # normalise the leading coefficient so that inv(2x+2y) == 1/2 inv(x+y)
    lc = a.t[-1][1]
    b = Poly({m: c / lc for m, c in a.t})
    return Poly({(("inv(%s)" % short(str(b)), 1),): 1 / lc})


def primitive(a):
    """a polynomial up to a nonzero factor"""
    if not a.t:
        return a
    den = 1
    for _m, c in a.t:
        den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    for _m, c in a.t:
        g = math.gcd(g, abs(int(c * den)))
    f = Fraction(den, g)
    if a.t[-1][1] < 0:
        f = -f
    return Poly({m: c * f for m, c in a.t})


ZEROES = {}


def eq0(d):
    """the condition that a polynomial is zero"""
    d = primitive(d)
    v = "eq0(%s)" % d
    ZEROES[v] = d
    return var(v)


# ------------------------------------------------------- decision diagrams (ITE)
class Node:
    __slots__ = ("v", "hi", "lo", "_h")

    def __init__(self, v, hi, lo):
        self.v, self.hi, self.lo = v, hi, lo
        self._h = hash((v, hi, lo))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Node) and self._h == o._h and self.v == o.v
                             and self.hi == o.hi and self.lo == o.lo)

    def __repr__(self):
        return "[%s ? %r : %r]" % (self.v, self.hi, self.lo)


NODES = {}   # equal diagrams are (mostly) one object


def mk(v, hi, lo):
    if hi is lo or hi == lo:
        return hi
    k = (v, hi, lo)
    n = NODES.get(k)
    if n is None:
        if len(NODES) > 3000000:
            NODES.clear()
        n = NODES[k] = Node(v, hi, lo)
    return n


def top(xs):
    vs = [x.v for x in xs if isinstance(x, Node)]
    return min(vs) if vs else None


def cof(x, v, b):
    if isinstance(x, Node) and x.v == v:
        return x.hi if b else x.lo
    return x


def app(f, *xs):
    """apply f to the leaves of decision diagrams"""
    memo = {}

    def go(xs):
        if xs in memo:
            return memo[xs]
        v = top(xs)
        if v is None:
            r = f(*xs)
        else:
            r = mk(v, go(tuple(cof(x, v, True) for x in xs)), go(tuple(cof(x, v, False) for x in xs)))
        memo[xs] = r
        return r
    return go(tuple(xs))


def ite(c, a, b):
    memo = {}

    def go(c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        if a is True and b is False:
            return c
        k = (c, a, b)
        r = memo.get(k)
        if r is not None:
            return r
        v = top((c, a, b))
        r = mk(v, go(cof(c, v, True), cof(a, v, True), cof(b, v, True)),
               go(cof(c, v, False), cof(a, v, False), cof(b, v, False)))
        memo[k] = r
        return r
    return go(c, a, b)


def b_and(a, b):
    return ite(a, b, False)


def b_or(a, b):
    return ite(a, True, b)


def b_not(a):
    return ite(a, False, True)


def var(s):
    return mk(s, True, False)


def leaves(x):
    """(list of (literal, ...) path, leaf)"""
    out = []

    def go(x, path):
        if isinstance(x, Node):
            go(x.hi, path + ((x.v, True),))
            go(x.lo, path + ((x.v, False),))
        else:
            out.append((path, x))
    go(x, ())
    return out


def restrict(x, lits):
    d = dict(lits)
    memo = {}

    def go(x):
        if not isinstance(x, Node):
            return x
        if x in memo:
            return memo[x]
        if x.v in d:
            r = go(x.hi if d[x.v] else x.lo)
        else:
            r = mk(x.v, go(x.hi), go(x.lo))
        memo[x] = r
        return r
    return go(x)


def under(x, c, memo):
    """x where the condition c is known to hold (restrict operator)"""
    def go(x, c):
        if c is True or not isinstance(x, Node):
            return x
        if not isinstance(c, Node):
            return x
        k = (x, c)
        if k in memo:
            return memo[k]
        if c.v < x.v:
            r = go(x, b_or(c.hi, c.lo))
        elif x.v < c.v:
            r = mk(x.v, go(x.hi, c), go(x.lo, c))
        elif c.hi is False:
            r = go(x.lo, c.lo)
        elif c.lo is False:
            r = go(x.hi, c.hi)
        else:
            r = mk(x.v, go(x.hi, c.hi), go(x.lo, c.lo))
        memo[k] = r
        return r
    return go(x, c)


def support(x):
    seen, vs = set(), set()

    def go(x):
        if isinstance(x, Node) and x not in seen:
            seen.add(x)
            vs.add(x.v)
            go(x.hi)
            go(x.lo)
    go(x)
    return vs


def value_at(x, p, c, isbool):
    """the decision diagram x for the value c of the recurrence p alone; None where more decides"""
    while isinstance(x, Node):
        v = x.v
        if isbool:
            if v != p:
                return None
            t = c
        elif v == "eq0(%s)" % p:
            t = c == ZERO
        elif v == "bool(%s)" % p:
            t = c != ZERO
        else:
            m = re.match(r"eq0\(and\((\d+),(.*)\)\)$", v)
            if not m or m.group(2) != p or c.const().denominator != 1:
                return None
            t = int(m.group(1)) & int(c.const()) == 0
        x = x.hi if t else x.lo
    if isbool:
        return x if isinstance(x, bool) else None
    if not isinstance(x, Poly):
        return None
    if x == A(p):
        return c
    return x if x.is_const() else None


class Agg:
    """first-class aggregate leaf"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = tuple(sorted(d.items(), key=lambda kv: kv[0]))

    def __hash__(self):
        return hash(self.d)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.d == o.d

    def __repr__(self):
        return "{%s}" % ", ".join("%s:%r" % kv for kv in self.d)


# ----------------------------------------------------------------- the summariser
class State:
    __slots__ = ("mem", "epoch", "trace", "ver")

    def __init__(self):
        self.mem = {}      # base -> {off: token diagram}
        self.epoch = "0"
        self.trace = ()
        self.ver = {}      # root pointer -> version, advanced by loops that write through it

    def copy(self):
        s = State()
        s.ver = dict(self.ver)
        s.mem = {b: dict(m) for b, m in self.mem.items()}
        s.epoch = self.epoch
        s.trace = self.trace
        return s


class Summary:
    def __init__(self):
        self.outcome = None   # diagram of ('ret', value) / ('throw', typeinfo) / ('unreachable',)
        self.mem = {}         # final memory
        self.trace = ()       # diagram of event tuples
        self.locs = {}        # event -> source location


def is_atom(x):
    return len(x.t) == 1 and x.t[0][1] == 1 and len(x.t[0][0]) == 1 and x.t[0][0][0][1] == 1


def atom_bytes(x):
    """size of the memory read an atom stands for"""
    a = x.t[0][0][0][0]
    m = re.match(r"[M\[].*\]:(\d+)$", a)
    return int(m.group(1)) if m else 0


def split_read(a):
    """(prefix, offset, bytes) of the name of a memory read"""
    m = re.match(r"([M\[].*)\+(-?\d+)\]:(\d+)$", a, re.S)
    return (m.group(1), int(m.group(2)), int(m.group(3))) if m else None


def narrow(x, k, n):
    """bytes k..k+n of the memory read x (little endian)"""
    if is_atom(x):
        r = split_read(x.t[0][0][0][0])
        if r and n > 0 and k + n <= r[2]:
            return A("%s+%d]:%d" % (r[0], r[1] + k, n))
    return None


def bit_mask(x):
    """bits that may be set in a sum of shifted unsigned memory reads"""
    out = 0
    for m, c in x.t:
        if c.denominator != 1 or c <= 0:
            return None
        c = int(c)
        if m == ():
            b = c
        else:
            r = split_read(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None
            if not r or c & (c - 1):
                return None
            b = ((1 << 8 * r[2]) - 1) * c
        if out & b:
            return None
        out |= b
    return out


def join_reads(x):
    """neighbouring bytes read one by one are one read"""
    if len(x.t) < 2:
        return x
    runs, rest = [], {}
    for m, c in sorted(x.t, key=lambda t: t[1]):
        r = split_read(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None
        if not r or c.denominator != 1 or c <= 0:
            rest[m] = c
            continue
        for g in runs:
            if g[1] == r[0] and g[2] + g[3] == r[1] and c == g[0] * (1 << 8 * g[3]) and g[3] + r[2] <= 8:
                g[3] += r[2]
                break
        else:
            runs.append([c, r[0], r[1], r[2]])
    for c, p, o, n in runs:
        rest[(("%s+%d]:%d" % (p, o, n), 1),)] = c
    return Poly(rest)


def part(x, k, n, w):
    """bytes k..k+n of a w-byte value put together from narrower ones"""
    hi, lo = {}, {}
    f = 1 << (8 * (k or n))
    for m, c in x.t:
        if c.denominator == 1 and c % f == 0:
            hi[m] = c / f
        elif m == () and c.denominator == 1:
            c = int(c) % (1 << 8 * w)
            hi[m], lo[m] = Fraction(c // f), Fraction(c % f)
        else:
            lo[m] = c
    lo, hi = Poly(lo), Poly(hi)
    if not (lo.is_const() or is_atom(lo) and 0 < atom_bytes(lo) <= (k or n)):
        return None
    if k == 0:
        return lo
    if k + n == w:
        return hi
    return None


def rational(x):
    """the fraction a floating constant was written as"""
    f = Fraction(x)
    if f.denominator > 1 << 20:
        g = f.limit_denominator(2000)
        if abs(g - f) <= abs(f) * Fraction(1, 1 << 51):
            return g
        for d in range(1, 18):
            g = Fraction(round(f * 10 ** d), 10 ** d)
            if g and abs(g - f) <= abs(f) * Fraction(1, 1 << 52):
                return g
    return f


def is_counter(x):
    """k + c or j*k + c for loop counters k"""
    a = x.atoms()
    return bool(a) and all(re.match(r"k~\d+$", t) for t in a) and all(c.denominator == 1 for _m, c in x.t)


def digest(x, strip=None, force=False):
    """short strings stay readable, long ones are hashed; the iteration marks
    (~depth) a value depends on stay visible, except those of the loop it leaves"""
    r = x if isinstance(x, str) else repr(x)
    if len(r) <= 60 and not force:
        return r
    marks = set(re.findall(r"~[0-9]+m?", r))
    marks = sorted(marks - {strip, "%sm" % strip})
    h = "#" + hashlib.sha256(r.encode()).hexdigest()[:20]
    FULL[h] = r
    return h + "".join(marks)


def short(s):
    return s if len(s) <= 160 else digest(s)


FULL = {}


def loc_in(ins, root="/repo/"):
    for f, l, fn in ins.get("loc", []):
        if f.startswith(root):
            return "%s:%d (%s)" % (f, l, fn)
    L = ins.get("loc", [])
    return "%s:%d (%s)" % tuple(L[0]) if L else "?"


class Summariser:
    def __init__(self, mod, fname, argnames=None, rename=None, event_filter=None, root="/repo/", assume_in_range=False, single=False):
        self.single = single
        self.assume_in_range = assume_in_range
        self.mod = mod
        self.f = mod["functions"][fname]
        self.fname = fname
        self.rename = rename or (lambda n: n)
        self.event_filter = event_filter
        self.vals = {}
        self.root = root
        self.local = set()
        self.nalloca = {}
        self.unnamed = {}
        self.known, self.kmemo = (), {}
        self.sites = []
        self.umax1 = {}
        self.widths = {}
        self.objbytes = set()
        self.debug = False
        self.rootof = {}
        self.apart = set()          # arguments that point to separate objects
        self.calls = []
        for i, a in enumerate(self.f["args"]):
            n = (argnames or {}).get(i, "a%d" % i)
            self.vals[a["id"]] = var(n) if a["t"] == "i1" else A(n)
            if a.get("noalias"):
                self.apart.add(n)

    # -- operands
    def dem(self, n):
        return self.mod["demangled"].get(n, n)

    def cval(self, o):
        k = o["k"]
        if k == "i":
            if o["w"] == 1:
                return o["n"] not in ("0",)
            return K(int(o["n"]))
        if k == "f":
            return K(rational(float.fromhex(o["hex"]))) if "inf" not in o["hex"].lower() and "nan" not in o["hex"].lower() else A("fp:" + o["hex"])
        if k == "null":
            return ZERO
        if k == "zero":
            return ZERO if o["t"] in ("ptr",) else A("zero:" + o["t"])
        if k == "undef":
            return A("undef")
        if k == "g":
            return A("@" + o["n"])
        if k == "ge":
            return padd(self.cval(o["base"]), K(o["off"]))
        if k == "str":
            return A("bytes:" + bytes(o["b"]).hex())
        if k == "agg":
            return Agg({(i,): self.cval(e) for i, e in enumerate(o["e"])})
        if k == "ce" and o["op"] in ("ptrtoint", "inttoptr"):
            return self.cval(o["e"][0])
        if k == "v":
            return self.val(o)
        return A("const:" + str(o))

    def val(self, o):
        if o["k"] == "v":
            if o["id"] in self.unnamed:
                self.name_local(o["id"])
            x = self.vals[o["id"]]
            if self.known and isinstance(x, Node):
                for c in self.known:
                    x = under(x, c, self.kmemo)
            return x
        return self.cval(o)

    def name_local(self, i):
        """locals are numbered in the order of their first use"""
        t = self.unnamed.pop(i)
        k = self.nalloca.get(t, 0)
        self.nalloca[t] = k + 1
        n = "L%d:%s" % (k, t)
        self.local.add(n)
        self.rootof[n] = (n,)
        self.vals[i] = A(n)

    # -- memory
    def addr(self, p):
        b, c = p.split_const()
        if c.denominator != 1:
            raise Unsupported("address")
        n = str(b)
        if n not in self.rootof:
            self.rootof[n] = tuple(sorted(m[0][0] for m, k in b.t if k == 1 and len(m) == 1 and m[0][1] == 1
                                          and not m[0][0].startswith("k~")))
        return n, int(c)

    def rootbase(self, b):
        return b

    def default(self, st, b, off, init_atom=None):
        vs = [st.ver[r] for r in self.rootof.get(b, (b,)) if r in st.ver]
        if b in self.local and not vs:
            return ("undef",)
        return app(lambda e, *v: ("mem", "|".join((e,) + tuple(x for x in v if x)), b, off), st.epoch, *vs)

    def load(self, st, p, n, ty):
        def one(pl):
            if not isinstance(pl, Poly):
                raise Unsupported("load address")
            b, off = self.addr(pl)
            g = self.global_bytes(b, off, n, ty)
            if g is not None:
                return g
            return self.scalar(st, b, off, n)
        v = app(one, p)
        if ty == "i1":
            v = app(lambda x: x if isinstance(x, bool) else (x.const() != 0 if x.is_const() else var("bool(%s)" % x)), v)
        elif True:
            v = app(lambda x: (ONE if x else ZERO) if isinstance(x, bool) else x, v)
        return v

    def scalar(self, st, b, off, n):
        """the n bytes at (b, off) as one value"""
        m = st.mem.get(b, {})
        toks = [m[off + k] if off + k in m else self.default(st, b, off + k) for k in range(n)]

        def comb(*ts):
            t0 = ts[0]
            if t0[0] == "byte" and t0[2] == 0 and t0[3] == n and all(
                    t[0] == "byte" and t[1] == t0[1] and t[2] == k and t[3] == n for k, t in enumerate(ts)):
                v = t0[1]
                return v
            if t0[0] == "byte" and t0[3] > n and isinstance(t0[1], Poly) and all(
                    t[0] == "byte" and t[1] == t0[1] and t[2] == t0[2] + k and t[3] == t0[3] for k, t in enumerate(ts)):
                v = part(t0[1], t0[2], n, t0[3])
                if v is not None:
                    return v
            if t0[0] == "mem" and all(t == ("mem", t0[1], t0[2], t0[3] + k) for k, t in enumerate(ts)):
                nm = "M%s[%s+%d]:%d" % (t0[1], t0[2], t0[3], n) if t0[1] != "0" else "[%s+%d]:%d" % (t0[2], t0[3], n)
                return A(nm)
            if n <= 8 and all(t[0] == "mem" for t in ts):
                x = ZERO
                for k, t in enumerate(ts):
                    x = padd(x, A("%s[%s+%d]:1" % ("M" + t[1] if t[1] != "0" else "", t[2], t[3])), 1 << 8 * k)
                return join_reads(x)
            if all(t == ("undef",) for t in ts):
                return A("undef")
            if all(t[0] == "byte" and t[1] == ZERO for t in ts):
                return ZERO
            return A("concat(%s)" % (ts,))
        return app(comb, *toks)

    def cells(self, b, offs, states):
        """split the bytes a loop writes at a fixed address into scalars; None
        for bytes that do not form one"""
        out, offs, skip = [], sorted(offs), -1
        have = set(offs)
        for o in offs:
            if o < skip:
                continue
            n = self.widths.get((b, o))
            if n is None:
                ns = {l[3] for s in states if o in s.mem.get(b, {}) for _p, l in leaves(s.mem[b][o])
                      if l[0] == "byte" and l[2] == 0 and l[1] != ZERO}
                n = ns.pop() if len(ns) == 1 else None
            if n is None or not all(o + k in have for k in range(n)):
                return None
            for s in states:
                for _p, l in leaves(self.scalar(s, b, o, n)):
                    if not isinstance(l, (Poly, bool)) or "concat(" in str(l):
                        return None
            out.append((o, n))
            skip = o + n
        return out

    def global_bytes(self, b, off, n, ty):
        if not b.startswith("@"):
            return None
        g = self.mod["globals"].get(b[1:])
        if not g or not g.get("const") or "init" not in g:
            return None

        def find(o, off):
            if o["k"] == "agg" and o.get("offs"):
                offs = o["offs"]
                for i in range(len(offs) - 1, -1, -1):
                    if off >= offs[i]:
                        return find(o["e"][i], off - offs[i])
            if o["k"] == "agg":
                es = size_of(o["e"][0])
                if es:
                    i = off // es
                    if i < len(o["e"]):
                        return find(o["e"][i], off - i * es)
                return None
            if o["k"] == "str":
                if off + n <= len(o["b"]):
                    return K(int.from_bytes(bytes(o["b"][off:off + n]), "little"))
                return None
            if off == 0:
                return self.cval(o)
            return None

        def size_of(o):
            if o["k"] == "i":
                return max(1, o["w"] // 8)
            if o["k"] == "f":
                return {"double": 8, "float": 4, "x86_fp80": 16}.get(o["t"])
            if o["k"] in ("null", "g", "ge"):
                return 8
            return None
        try:
            return find(g["init"], off)
        except Exception:
            return None

    def store(self, st, p, v, n):
        for path, pl in leaves(p):
            if not isinstance(pl, Poly):
                raise Unsupported("store address")
            b, off = self.addr(pl)
            c = True
            for a, s in path:
                c = b_and(c, var(a) if s else b_not(var(a)))
            m = st.mem.setdefault(b, {})
            self.widths[(b, off)] = n
            for k in range(n):
                tok = app(lambda x: self.token(x, k, n), v)
                if c is True:
                    m[off + k] = tok
                else:
                    old = m.get(off + k, self.default(st, b, off + k))
                    m[off + k] = ite(c, tok, old)

    def token(self, x, k, n):
        if isinstance(x, bool):
            x = ONE if x else ZERO
        if isinstance(x, Poly) and x.monomial() and x.t[0][1] == 1 and len(x.t[0][0]) == 1 and x.t[0][0][0][1] == 1:
            a = x.t[0][0][0][0]
            if a.startswith("M") or a.startswith("["):
                h, sz = a.rsplit(":", 1)
                if sz.isdigit() and int(sz) == n and h.endswith("]"):
                    i = h.index("[")
                    e = h[1:i] if a.startswith("M") else "0"
                    body = h[i + 1:-1]
                    j = body.rindex("+")
                    if True:
                        return ("mem", e, body[:j], int(body[j + 1:]) + k)
        if isinstance(x, Poly) and not x.t:
            return ("byte", ZERO, 0, 1)
        if isinstance(x, Poly) and len(x.t) > 1 and bit_mask(x) == (1 << 8 * n) - 1 and () not in dict(x.t):
            # put together from whole bytes read elsewhere
            for m, c in x.t:
                pre, off, w = split_read(m[0][0])
                j = (int(c).bit_length() - 1) / 8
                if j == int(j) and j <= k < j + w:
                    i = pre.index("[")
                    return ("mem", pre[1:i] if pre.startswith("M") else "0", pre[i + 1:], off + k - int(j))
        return ("byte", x, k, n)

    def memcpy(self, st, d, s, n):
        def toks(sl):
            sb, so = self.addr(sl)
            sm = st.mem.get(sb, {})
            r = []
            for k in range(n):
                t = sm[so + k] if so + k in sm else None
                if t is None:
                    g = self.global_bytes(sb, so + k, 1, "i8")
                    t = ("byte", g, 0, 1) if g is not None else self.default(st, sb, so + k)
                r.append(t)
            return r
        src = None
        for path, sl in leaves(s):
            t = toks(sl)
            c = self.path_cond(path)
            src = t if src is None else [ite(c, x, y) for x, y in zip(t, src)]
        for path, dl in leaves(d):
            db, do = self.addr(dl)
            c = self.path_cond(path)
            m = st.mem.setdefault(db, {})
            for k in range(n):
                m[do + k] = src[k] if c is True else ite(c, src[k], m.get(do + k, self.default(st, db, do + k)))

    @staticmethod
    def path_cond(path):
        c = True
        for a, s in path:
            c = b_and(c, var(a) if s else b_not(var(a)))
        return c

    def clobber(self, st):
        for b in list(st.mem):
            if not any(r in self.local for r in self.rootof.get(b, ())):
                del st.mem[b]
        st.epoch = app(lambda e: str(int(e) + 1) if e.isdigit() else e + "'", st.epoch)

    # -- comparisons
    def cmp(self, pred, a, b, ot):
        def one(x, y):
            if isinstance(x, bool) or isinstance(y, bool):
                x = x if not isinstance(x, bool) else (ONE if x else ZERO)
                y = y if not isinstance(y, bool) else (ONE if y else ZERO)
            if not isinstance(x, Poly) or not isinstance(y, Poly):
                raise Unsupported("cmp")
            fp = pred[0] in "ou" and len(pred) == 3 and ot in ("float", "double", "x86_fp80")
            d = padd(x, y, -1)
            if fp:
                p = pred
                neg = False
                if p[0] == "u" and p not in ("uno",):
                    p = {"ueq": "one", "une": "oeq", "ugt": "ole", "uge": "olt", "ult": "oge", "ule": "ogt"}[p]
                    neg = True
                if p == "ogt":
                    x, y, p = y, x, "olt"
                elif p == "oge":
                    x, y, p = y, x, "ole"
                if x.is_const() and y.is_const():
                    r = {"olt": x.const() < y.const(), "ole": x.const() <= y.const(), "oeq": x == y, "one": x != y,
                         "ord": True, "uno": False}[p]
                    return (not r) if neg else r
                if p in ("oeq", "one", "ord", "uno") and str(x) > str(y):
                    x, y = y, x
                v = var("f.%s(%s,%s)" % (p, x, y))
                return b_not(v) if neg else v
            if pred in ("eq", "ne"):
                if d.is_const():
                    r = d.const() == 0
                    return r if pred == "eq" else not r
                if ot == "ptr" and self.two_objects(d):
                    return pred == "ne"
                if self.single:
                    # 32-bit instance: -1 and 2^32-1 are the same index
                    r, c = d.split_const()
                    if abs(c) > 1 << 31 and c.denominator == 1:
                        d = padd(r, K((c + (1 << 31)) % (1 << 32) - (1 << 31)))
                v = eq0(self.trip(d))
                return v if pred == "eq" else b_not(v)
            if x.is_const() and y.is_const():
                xv, yv = x.const(), y.const()
                if pred[0] == "u":
                    w = int(ot[1:]) if ot.startswith("i") else 64
                    xv %= 1 << w
                    yv %= 1 << w
                return {"gt": xv > yv, "ge": xv >= yv, "lt": xv < yv, "le": xv <= yv}[pred[1:]]
            if d == ZERO:
                return pred[1:] in ("ge", "le")
            sg = pred[0]
            op = pred[1:]
            e = self.counted(sg, op, x, y)
            if e is not None:
                return e
            def lt(x, y):
                # constants on the right; x < 1 on unsigned values is x == 0
                if x.is_const():
                    return b_not(lt(y, padd(x, ONE)))
                if sg == "u" and y == ONE:
                    return eq0(x)
                return var("%slt(%s,%s)" % (sg, x, y))
            if op == "gt":
                return lt(y, x)
            if op == "lt":
                return lt(x, y)
            if op == "ge":
                return b_not(lt(x, y))
            return b_not(lt(y, x))
        return self.flat(app(one, a, b))

    def trip(self, d):
        """umax(1, n) as the bound of a guarded counted loop is n"""
        if not self.umax1 or not any(a.startswith("k~") for a in d.atoms()):
            return d
        r = ZERO
        for m, c in d.t:
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.umax1:
                r = padd(r, self.umax1[m[0][0]], c)
            else:
                r = padd(r, Poly({m: c}))
        return r

    def counted(self, sg, op, x, y):
        """k + c < n on a counter going up by one is k + c != n"""
        if not self.depth:
            return None
        k = "k~%d" % self.depth
        if op in ("gt", "le"):
            x, y = y, x
        dx = dict(x.t)
        if dx.get(((k, 1),)) != 1 or any(k in a for m in dx if m != ((k, 1),) for a, _ in m):
            return None
        if any("~%d" % self.depth in a for a in y.atoms()):
            return None
        c = dx.get((), 0)
        if set(dx) - {(), ((k, 1),)} or c < 0:
            return None
        if op in ("lt", "gt"):
            return b_not(eq0(self.trip(padd(x, y, -1))))
        if op in ("ge", "le"):
            if op == "le":
                return eq0(self.trip(padd(x, y, -1)))
            return eq0(self.trip(padd(x, y, -1)))
        return None

    @staticmethod
    def flat(x):
        """diagrams whose leaves are diagrams -> one diagram"""
        memo = {}

        def go(x):
            if not isinstance(x, Node):
                return x
            r = memo.get(x)
            if r is None:
                r = memo[x] = ite(var(x.v), go(x.hi), go(x.lo))
            return r
        return go(x)

    # -- main
    def topo(self, entry, blocks, L):
        """reverse post order of a region; an inner loop is one node"""
        order, seen = [], {}

        def succs(n):
            if n in self.headers and n != L:
                out = []
                for m in self.members[n]:
                    for s in self.blocks[m]["succs"]:
                        if s not in self.members[n] and s in blocks and s != L:
                            out.append(s)
                return out
            return [s for s in self.blocks[n]["succs"] if s in blocks and s != L]
        stack = [(entry, iter(succs(entry)))]
        seen[entry] = 1
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen[s] = 1
                    stack.append((s, iter(succs(s))))
                    break
                if seen[s] == 1:
                    raise Unsupported("irreducible control flow in " + self.fname)
            else:
                seen[n] = 2
                order.append(n)
                stack.pop()
        order.reverse()
        return order

    def infeasible(self, bid):
        """blocks that only report an out-of-range .at() access"""
        if not self.assume_in_range:
            return False
        for ins in self.blocks[bid]["i"]:
            if ins["op"] == "call" and any(t in (ins.get("callee") or "") for t in (
                    "__throw_out_of_range", "__throw_length_error", "__throw_bad_alloc", "__throw_bad_array_new_length")):
                return True
        return False

    def region(self, entry, blocks, st0, L=None):
        """summarise one acyclic region (whole function or loop body)"""
        edge, estate = {}, {}
        terms = []
        for bid in self.topo(entry, blocks, L):
            if self.infeasible(bid):
                continue
            b = self.blocks[bid]
            if bid == entry:
                st, cond = st0, True
            else:
                cond, st = False, None
                for p in dict.fromkeys(b["preds"]):
                    if (p, bid) not in edge:
                        continue
                    c = edge[(p, bid)]
                    st = estate[(p, bid)].copy() if st is None else self.merge(c, estate[(p, bid)], st)
                    cond = b_or(cond, c)
                if st is None:
                    continue
            if bid in self.headers and bid != L:
                for (src, dst, c, est) in self.loop(bid, st, cond, edge):
                    self.add_edge(edge, src, dst, c)
                    estate[(src, dst)] = est
                continue
            if bid != L:
                self.phis(b, edge)
            term = None
            for ins in b["i"]:
                if ins["op"] == "phi":
                    continue
                if ins["op"] in ("br", "ret", "switch", "unreachable"):
                    term = ins
                    break
                self.step(st, ins, cond)
            for s in b["succs"]:
                estate[(bid, s)] = st
            if term["op"] == "br":
                o = term["o"]
                if len(o) == 1:
                    self.add_edge(edge, bid, o[0]["id"], cond)
                elif self.infeasible(o[1]["id"]) != self.infeasible(o[2]["id"]):
                    d = o[1] if self.infeasible(o[2]["id"]) else o[2]
                    self.add_edge(edge, bid, d["id"], cond)
                else:
                    c = self.as_bool(self.val(o[0]))
                    # llvm order: cond, false, true
                    self.add_edge(edge, bid, o[2]["id"], b_and(cond, c))
                    self.add_edge(edge, bid, o[1]["id"], b_and(cond, b_not(c)))
            elif term["op"] == "switch":
                v = self.val(term["o"][0])
                rest = cond
                for cv, dst in term["cases"]:
                    c = self.cmp("eq", v, self.cval(cv), "i64")
                    self.add_edge(edge, bid, dst, b_and(rest, c))
                    rest = b_and(rest, b_not(c))
                self.add_edge(edge, bid, term["default"], rest)
            else:
                if term["op"] == "ret":
                    v = self.val(term["o"][0]) if term["o"] else None
                    oc = app(lambda x: ("ret", x), v) if v is not None else ("ret",)
                else:
                    oc = ("unreachable",)
                    for ins in reversed(b["i"]):
                        if ins["op"] == "call" and ins.get("callee") == "__cxa_throw":
                            oc = ("throw", str(self.val(ins["o"][1])))
                            break
                        if ins["op"] == "call" and ins.get("nr"):
                            oc = ("throw", ins.get("callee"))
                            break
                    st = st.copy()
                    st.mem, st.trace = {}, ()
                terms.append((cond, oc, st))
        return edge, estate, terms

    def phis(self, b, edge):
        phis = {}
        for ins in b["i"]:
            if ins["op"] != "phi":
                break
            v = None
            for o, p in ins["o"]:
                if (p, b["id"]) not in edge:
                    continue
                c = edge[(p, b["id"])]
                x = self.val(o)
                v = x if v is None else ite(c, x, v)
            phis[ins["id"]] = v
        self.vals.update(phis)

    # -- loops: a loop is an uninterpreted function of the normal form of its body.
    # What one iteration hands to the next is a set of recurrences: the header
    # phis and, alike, the scalars the body keeps at a fixed address.  A
    # recurrence is named by its start and step, so it does not matter in which
    # order, in which variable or whether in memory or a register it is kept;
    # those of the form start + k*step are replaced by that closed form.
    def loop(self, H, st, cond, outer_edge):
        # inside the loop the conditions of entering it are known
        before = self.known
        fresh = isinstance(cond, Node)
        if fresh:
            self.known = before + (cond,)
        try:
            return self.loop_body(H, st, cond, outer_edge)
        finally:
            if fresh:
                self.known = before

    def loop_body(self, H, st, cond, outer_edge):
        members = self.members[H]
        depth = self.depth + 1
        mark = "~%d" % depth
        mmark = mark + "m"
        kname = "k" + mark
        hb = self.blocks[H]
        phis = [i for i in hb["i"] if i["op"] == "phi"]
        init, isb = {}, {}
        for ins in phis:
            v = None
            for o, p in ins["o"]:
                if p in members or (p, H) not in outer_edge:
                    continue
                x = self.val(o)
                v = x if v is None else ite(outer_edge[(p, H)], x, v)
            init[ins["id"]] = v
            isb[ins["id"]] = ins["t"] == "i1"
        latches = [p for p in hb["preds"] if p in members]
        affine = {}
        settled, unsettled = {}, set()
        written = {}
        cells = {}
        wroots = set()
        touched_epoch = False
        self.depth = depth
        nsites = len(self.sites)
        loops0 = dict(self.loops)

        def basename(v):
            return "p%s{%s}" % (mark, digest(init[v]))

        def cellvars():
            return [(b, o, n) for b in cells if cells[b] for o, n in cells[b]]
        name = {v: basename(v) for v in init}
        try:
            since = 0
            for rnd in range(20):
                del self.sites[nsites:]
                self.loops = dict(loops0)
                s = st.copy()
                for b, offs in written.items():
                    m = s.mem.setdefault(b, {})
                    for o in offs:
                        m[o] = app(lambda e: ("mem", e + "|v" + mmark, b, o), s.epoch) if (b, o) in self.objbytes else ("it" + mmark, b, o)
                for r in wroots:
                    s.ver[r] = "v" + mmark
                    if r in self.local:
                        for b in list(s.mem):
                            if r in self.rootof.get(b, ()):
                                del s.mem[b]
                if touched_epoch:
                    s.epoch = "e" + mmark
                    for b in list(s.mem):
                        if b not in self.local:
                            del s.mem[b]
                s.trace = ()

                def start(v):
                    if v in affine:
                        return app(lambda x: padd(x, pmul(affine[v], A(kname))), init[v])
                    if v in settled:
                        return self.flat(app(lambda b: init[v] if b else settled[v], var("eq0(%s)" % kname)))
                    return var(name[v]) if isb[v] else A(name[v])
                for i in phis:
                    self.vals[i["id"]] = start(i["id"])
                for c in cellvars():
                    b, o, n = c
                    if b in s.mem:
                        x = start(c)
                        for k in range(n):
                            s.mem[b][o + k] = app(lambda y: self.token(y, k, n), x)
                s0 = s.copy()
                edge, estate, terms = self.region(H, members, s, H)
                # values on the back edge
                nxt, bst, bc = {}, None, False
                for p in latches:
                    if (p, H) not in edge:
                        continue
                    c = edge[(p, H)]
                    bst = estate[(p, H)].copy() if bst is None else self.merge(c, estate[(p, H)], bst)
                    for i in phis:
                        x = [self.val(o) for o, q in i["o"] if q == p][0]
                        n = i["id"]
                        nxt[n] = x if n not in nxt else ite(c, x, nxt[n])
                    bc = b_or(bc, c)
                if bst is None:
                    nxt = {i["id"]: self.vals[i["id"]] for i in phis}
                    bst = s0
                elif bc is not True:
                    # on the back edge no exit was taken
                    memo = {}
                    nxt = {n: under(x, bc, memo) for n, x in nxt.items()}
                    self.assume(bst, bc, memo)
                bst.trace = app(settle, bst.trace)
                exits = []
                for (a, b), c in edge.items():
                    if b not in members:
                        e = estate[(a, b)].copy()
                        if isinstance(c, Node):
                            self.assume(e, c, {})
                        e.trace = app(settle, e.trace)
                        exits.append((a, b, c, e))
                # what the loop writes
                nroots = set()
                w2, e2 = {}, bst.epoch != s0.epoch
                for stt in [bst] + [e[3] for e in exits]:
                    for b in stt.mem:
                        if mark in b:
                            for r in self.rootof.get(b, ()):
                                if mark not in r and r not in nroots:
                                    nroots.add(r)
                            continue
                        for o, t in stt.mem[b].items():
                            t0 = s0.mem.get(b, {}).get(o)
                            if t0 is None:
                                t0 = self.default(s0, b, o)
                            if t != t0 and stt is bst:      # what only an exit writes does not reach the next iteration
                                w2.setdefault(b, set()).add(o)
                    e2 = e2 or stt.epoch != s0.epoch
                for stt in [bst] + [e[3] for e in exits]:
                    nroots |= {r for r in stt.ver if stt.ver[r] != s0.ver.get(r, "") and mark not in r}
                grown = (e2 and not touched_epoch) or not nroots <= wroots
                wroots |= nroots
                touched_epoch = touched_epoch or e2
                for b, o in w2.items():
                    if not o <= written.get(b, set()):
                        grown = True
                        written.setdefault(b, set()).update(o)
                ncells = {}
                for b in written:
                    volatile = touched_epoch and b not in self.local or any(r in wroots and r in self.local for r in self.rootof.get(b, ()))
                    ncells[b] = None if volatile or cells.get(b, 1) is None else self.cells(b, written[b], [bst] + [e[3] for e in exits])
                if ncells != cells:
                    grown = True
                    cells = ncells
                    for c in cellvars():
                        if c not in init:
                            init[c] = self.scalar(st, *c)
                            isb[c] = False
                            name[c] = basename(c)
                for c in cellvars():
                    nxt[c] = self.scalar(bst, *c)
                rec = [i["id"] for i in phis] + cellvars()
                # induction variables
                naff = {}
                for n in rec:
                    if n in affine:
                        naff[n] = affine[n]
                        continue
                    if isb[n]:
                        continue
                    if nxt[n] == init[n] and isinstance(init[n], (Poly, Node)):
                        naff[n] = ZERO
                        continue
                    if not isinstance(nxt[n], Poly):
                        continue
                    d = padd(nxt[n], A(name[n]), -1)
                    if mark not in str(d):
                        naff[n] = d
                        continue
                    # a value computed from another counter: f(k+1) on the back edge, f(0) before
                    t = dict(nxt[n].t)
                    sl = t.pop(((kname, 1),), None)
                    rest = Poly(t)
                    if sl is not None and mark not in str(rest) and isinstance(init[n], Poly) and padd(rest, K(sl), -1) == init[n]:
                        naff[n] = K(sl)
                # a flag that takes one constant value in the first iteration and another one ever after
                nset = {}
                for n in rec:
                    if n in naff or n in unsettled or not (isinstance(init[n], bool) if isb[n] else isinstance(init[n], Poly) and init[n].is_const()):
                        continue
                    if n in settled:
                        if nxt[n] == settled[n]:
                            nset[n] = settled[n]
                        else:
                            unsettled.add(n)
                        continue
                    v = value_at(nxt[n], name[n], init[n], isb[n])
                    if v is not None and v != init[n] and value_at(nxt[n], name[n], v, isb[n]) == v:
                        nset[n] = v
                newname = {n: "p%s{%s;%s}" % (mark, digest(init[n]), digest(nxt[n])) for n in rec}
                changed = grown or naff.keys() != affine.keys() or nset != settled
                affine, settled = naff, nset
                if self.debug:
                    print("loop", depth, rnd, "grown", grown, written, wroots, affine.keys(), e2, touched_epoch)
                if changed:
                    name, since = {n: basename(n) for n in rec}, 0
                    continue
                if since >= (3 if set(rec) - set(affine) - set(settled) else 0):
                    break
                since += 1
                name = newname
            else:
                raise Unsupported("loop does not stabilise")
        finally:
            self.depth = depth - 1
        # canonical signature of one iteration
        ex = sorted(exits, key=lambda e: repr(self.exit_cond(e[2], mark)))
        iscell = {b for b in cells if cells[b] is not None}
        wr = []
        for b in sorted(bst.mem):
            if b in iscell:
                continue
            for o in sorted(bst.mem[b]):
                t = bst.mem[b][o]
                t0 = s0.mem.get(b, {}).get(o)
                if t0 is None:
                    t0 = self.default(s0, b, o)
                if t != t0:
                    wr.append((b, o, repr(t)))
        # element writes of the iteration that leaves the loop, where they are others
        there = {(b, o): t for b, o, t in wr}
        for n, e in enumerate(ex):
            for b in sorted(e[3].mem):
                if mark not in b:
                    continue
                for o in sorted(set(e[3].mem[b]) | {k for q, k in there if q == b}):
                    t = e[3].mem[b].get(o)
                    t0 = s0.mem.get(b, {}).get(o)
                    if t0 is None:
                        t0 = self.default(s0, b, o)
                    if t is None:
                        t = t0
                    if repr(t) != there.get((b, o), repr(t0)):
                        wr.append((b, o, repr(t), "exit %d" % n))
        exs = [repr(self.exit_cond(e[2], mark)) for e in ex]
        trc = (repr(bst.trace), [repr(e[3].trace) for e in ex])
        sig = digest((exs, wr) + trc, mark, True)
        self.loops[sig] = {"exits": exs, "writes": wr, "trace": repr(bst.trace), "line": loc_in(hb["i"][-1], self.root)}
        tag = "LOOP<%s>" % sig
        # a value that depends on no memory the loop changes is a function of the
        # recurrences alone; a written object likewise of the writes to it
        pure_exits = mmark not in repr(exs) and not touched_epoch
        vtag = "LOOP<%s>" % digest((exs,), mark, True) if pure_exits else tag

        def tagof(x):
            return tag if mmark in (x if isinstance(x, str) else repr(x)) else vtag

        def rtag(r):
            w = [x for x in wr if r in self.rootof.get(x[0], ())]
            if not pure_exits or mmark in repr(w).replace("v%s[" % mmark, "["):
                return tag
            if r in {q for stt in [bst] + [e[3] for e in exits] for q in stt.ver if stt.ver[q] != s0.ver.get(q, "")}:
                return tag
            return "LOOP<%s>" % digest((exs, w), mark, True)

        # values leaving the loop: a single exit on a condition linear in the
        # counter tells the counter's last value
        last = None
        if len(ex) == 1:
            c = ex[0][2]
            if isinstance(c, Node) and c.hi is True and c.lo is False and c.v in ZEROES:
                rest = dict(ZEROES[c.v].t)
                f = rest.pop(((kname, 1),), 0)
                if abs(f) == 1 and not any(mark in a for m in rest for a, _e in m):
                    last = pmul(Poly(rest), K(-f))
        omemo = {}

        def out(x):
            if isinstance(x, Node):
                r = omemo.get(x)
                if r is None:
                    r = omemo[x] = out1(x)
                return r
            return out1(x)

        def out1(x):
            if x is None:
                return None
            if isinstance(x, Node):
                if mark in repr(x):
                    inv = [v for v in support(x) if mark not in v]
                    if inv and len(inv) <= 12:
                        v = min(inv)
                        return ite(var(v), out(restrict(x, ((v, True),))), out(restrict(x, ((v, False),))))
                    if all(isinstance(l, bool) for _p, l in leaves(x)):
                        return var("%s(%s)" % (tagof(x), digest(x, mark, True)))
                    return A("%s(%s)" % (tagof(x), digest(x, mark, True)))
                return x
            if isinstance(x, Poly) and mark in str(x):
                if last is not None:
                    acc = ZERO
                    for m, f in x.t:
                        t = Poly({tuple((a, e) for a, e in m if a != kname): f})
                        for a, e in m:
                            for _ in range(e if a == kname else 0):
                                t = pmul(t, last)
                        acc = padd(acc, t)
                    x = acc
                return self.out_poly(x, mark, tagof)
            if isinstance(x, Agg) and mark in repr(x):
                return Agg({k: out(v) for k, v in x.d})
            return x
        for m in members:
            for ins in self.blocks[m]["i"]:
                if ins["id"] in self.vals:
                    self.vals[ins["id"]] = out(self.vals[ins["id"]])
        res = []
        sel = cond
        for n, (a, b, c, est) in enumerate(ex):
            if n == len(ex) - 1:
                c2 = sel
            else:
                v = var("%s.exit(%s)" % (tagof(c), digest(c, mark, True)))
                c2 = b_and(sel, v)
                sel = b_and(sel, b_not(v))
            e2 = st.copy()
            for r in wroots:
                e2.ver[r] = rtag(r)
                if r in self.local:
                    for bb in list(e2.mem):
                        if r in self.rootof.get(bb, ()):
                            del e2.mem[bb]
            if touched_epoch:
                e2.epoch = tag
                for bb in list(e2.mem):
                    if bb not in self.local:
                        del e2.mem[bb]
            for bb in set(est.mem) | set(e2.mem):
                if mark in bb:
                    # element writes of the loop, addressed by the iteration
                    if not any(r in self.local for r in self.rootof.get(bb, ())):
                        rs = self.rootof.get(bb, ())
                        t = rtag(rs[0]) if len(rs) == 1 else tag
                        e2.mem["%s:%s" % (t, digest(bb, mark, True))] = {o: (t, o) for o in est.mem[bb]}
                    continue
                if bb in self.local and any(r in wroots for r in self.rootof.get(bb, ())):
                    continue
                if bb in iscell and bb in est.mem:
                    m = e2.mem.setdefault(bb, {})
                    for o, w in cells[bb]:
                        x = app(out, self.scalar(est, bb, o, w)) if not isinstance(self.scalar(est, bb, o, w), Node) else out(self.scalar(est, bb, o, w))
                        for k in range(w):
                            m[o + k] = app(lambda y: self.token(y, k, w), x)
                    continue
                for o in est.mem.get(bb, {}):
                    t = est.mem[bb][o]
                    t0 = s0.mem.get(bb, {}).get(o)
                    if t0 is None:
                        t0 = self.default(s0, bb, o)
                    if t != t0 or o in written.get(bb, ()):
                        e2.mem.setdefault(bb, {})[o] = app(lambda e: ("mem", e + "|" + tag, bb, o), e2.epoch) if (bb, o) in self.objbytes else (tag, bb, o, digest(t, mark, True))
                    elif touched_epoch and bb in self.local:
                        e2.mem.setdefault(bb, {})[o] = t
            has = bst.trace != () or est.trace != ()
            if has:
                e2.trace = app(lambda t: t + ((tag,),), st.trace)
            res.append((a, b, c2, e2))
        return res

    def exit_cond(self, c, mark):
        return c

    def out_poly(self, x, mark, tag):
        # constants and invariant factors stay outside the loop result
        acc = ZERO
        for m, c in x.t:
            if any(mark in a for a, _e in m):
                inv = tuple((a, e) for a, e in m if mark not in a)
                dep = tuple((a, e) for a, e in m if mark in a)
                acc = padd(acc, Poly({mmul(inv, (("%s(%s)" % (tag(str(Poly({dep: Fraction(1)}))), digest(str(Poly({dep: Fraction(1)})), mark, True)), 1),)): c}))
            else:
                acc = padd(acc, Poly({m: c}))
        return acc

    def run(self):
        self.blocks = {b["id"]: b for b in self.f["blocks"] if not b.get("dead")}
        self.headers = set()
        self.members = {}
        self.depth = 0
        self.havoc = {}
        self.loops = {}
        for b in self.blocks.values():
            for h in b.get("loops", []):
                self.headers.add(h)
                self.members.setdefault(h, set()).add(b["id"])
        entry = self.f["blocks"][0]["id"]
        _edge, _est, terms = self.region(entry, set(self.blocks), State())
        outcome = fin = None
        for cond, oc, st in terms:
            outcome = oc if outcome is None else ite(cond, oc, outcome)
            fin = st.copy() if fin is None else self.merge(cond, st, fin)
        s = Summary()
        s.outcome = outcome
        s.trace = app(settle, fin.trace) if fin else ()
        s.mem = {b: m for b, m in (fin.mem if fin else {}).items() if b not in self.local}
        # drop writes that leave memory as it was
        for b in list(s.mem):
            s.mem[b] = {o: t for o, t in s.mem[b].items() if t != ("mem", "0", b, o) and
                        app(lambda x, y: x == y or x == ("mem", "0", b, o), t, self.default(fin, b, o)) is not True}
            if not s.mem[b]:
                del s.mem[b]
        s.sites = self.sites
        s.calls = self.calls
        s.loops = self.loops
        return s

    def add_edge(self, edge, a, b, c):
        edge[(a, b)] = b_or(edge[(a, b)], c) if (a, b) in edge else c

    def as_bool(self, v):
        return self.flat(app(lambda x: x if isinstance(x, bool) else (x.const() != 0 if x.is_const() else var("bool(%s)" % x)), v))

    def merge(self, c, a, b):
        r = State()
        r.epoch = ite(c, a.epoch, b.epoch)
        r.trace = ite(c, a.trace, b.trace)
        for k in set(a.ver) | set(b.ver):
            r.ver[k] = ite(c, a.ver.get(k, ""), b.ver.get(k, ""))
        for base in set(a.mem) | set(b.mem):
            ma, mb = a.mem.get(base, {}), b.mem.get(base, {})
            m = {}
            for off in set(ma) | set(mb):
                x = ma[off] if off in ma else self.default(a, base, off)
                y = mb[off] if off in mb else self.default(b, base, off)
                m[off] = ite(c, x, y)
            r.mem[base] = m
        return r

    def assume(self, s, c, memo):
        s.trace = under(s.trace, c, memo)
        s.epoch = under(s.epoch, c, memo)
        for k in s.ver:
            s.ver[k] = under(s.ver[k], c, memo)
        for m in s.mem.values():
            for o in m:
                m[o] = under(m[o], c, memo)

    def num(self, v):
        return app(lambda x: (ONE if x else ZERO) if isinstance(x, bool) else x, v)

    def uf(self, name, *xs):
        return app(lambda *ys: A("%s(%s)" % (name, ",".join(short(str(y)) for y in ys))), *[self.num(x) for x in xs])

    def step(self, st, ins, cond):
        op, o, i = ins["op"], ins["o"], ins["id"]
        V = self.vals
        if op == "alloca":
            t = re.sub(r'[^A-Za-z0-9_:.<>]', '', ins["at"].split("=")[0])[:60]
            self.unnamed[i] = t
        elif op in ("fadd", "add"):
            if ins["t"] == "i1":
                a, b = self.as_bool(self.val(o[0])), self.as_bool(self.val(o[1]))
                V[i] = ite(a, b_not(b), b)
            else:
                V[i] = app(lambda x, y: padd(x, y), self.num(self.val(o[0])), self.num(self.val(o[1])))
        elif op in ("fsub", "sub"):
            V[i] = app(lambda x, y: padd(x, y, -1), self.num(self.val(o[0])), self.num(self.val(o[1])))
        elif op in ("fmul", "mul"):
            def mulx(x, y):
                # exact division by an odd number is a multiplication by its
                # modular inverse
                if op == "mul" and ins["t"] == "i64" and y.is_const() and abs(y.const()) > 1 << 32 and int(y.const()) % 2:
                    q = pow(int(y.const()) % (1 << 64), -1, 1 << 64)
                    if q < 1 << 20:
                        return pmul(x, K(Fraction(1, q)))
                return pmul(x, y)
            V[i] = app(mulx, self.num(self.val(o[0])), self.num(self.val(o[1])))
        elif op == "fdiv":
            V[i] = app(lambda x, y: pmul(x, pinv(y)), self.val(o[0]), self.val(o[1]))
        elif op == "fneg":
            V[i] = app(lambda x: padd(ZERO, x, -1), self.val(o[0]))
        elif op in ("and", "or", "xor") and ins["t"] == "i1":
            a, b = self.as_bool(self.val(o[0])), self.as_bool(self.val(o[1]))
            V[i] = b_and(a, b) if op == "and" else b_or(a, b) if op == "or" else ite(a, b_not(b), b)
        elif op == "or" and ins.get("disjoint"):
            V[i] = app(lambda x, y: join_reads(padd(x, y)), self.num(self.val(o[0])), self.num(self.val(o[1])))
        elif op in ("and", "or", "xor"):
            def bits(x, y):
                if op == "or":
                    p, q = bit_mask(x), bit_mask(y)
                    if p is not None and q is not None and not p & q:
                        return join_reads(padd(x, y))
                if x.is_const() and y.is_const() and all(v.const() >= 0 and v.const().denominator == 1 for v in (x, y)):
                    p, q = int(x.const()), int(y.const())
                    return K(p & q if op == "and" else p | q if op == "or" else p ^ q)
                if op == "and" and x.is_const():
                    x, y = y, x
                if op == "and" and y.is_const() and y.const() in (0xffff, 0xffffffff):
                    if is_counter(x) or is_atom(x) and 0 < atom_bytes(x) <= (2 if y.const() == 0xffff else 4):
                        return x
                if op == "and" and y.is_const() and y.const() in (0xff, 0xffff, 0xffffffff):
                    r = narrow(x, 0, int(y.const()).bit_length() // 8)
                    if r is not None:
                        return r
                return A("%s(%s)" % (op, ",".join(sorted((str(x), str(y))))))
            V[i] = app(bits, self.num(self.val(o[0])), self.num(self.val(o[1])))
        elif op == "shl":
            def sh(x, y):
                if y.is_const():
                    return pmul(x, K(1 << int(y.const())))
                return A("shl(%s,%s)" % (x, y))
            V[i] = app(sh, self.num(self.val(o[0])), self.num(self.val(o[1])))
        elif op in ("lshr", "ashr", "sdiv", "udiv", "srem", "urem", "frem"):
            w = ins["t"]
            bx = self.num(self.val(o[1]))
            if ins.get("exact") and isinstance(bx, Poly) and bx.is_const() and bx.const() > 0:
                c = bx.const() if op in ("sdiv", "udiv") else Fraction(1 << int(bx.const()))
                V[i] = app(lambda x: pmul(x, K(1 / c)), self.num(self.val(o[0])))
            else:
                def shift(x, y):
                    if op == "urem" and self.depth:
                        # the round after k of a counted loop of n rounds
                        k = "k~%d" % self.depth
                        if x == padd(A(k), ONE) and not y.is_const() and not any("~%d" % self.depth in a for a in y.atoms()):
                            return ite(eq0(self.trip(padd(x, y, -1))), ZERO, x)
                    if op == "lshr" and y.is_const() and int(y.const()) % 8 == 0 and is_atom(x) and 8 * atom_bytes(x) == int(w[1:]):
                        r = narrow(x, int(y.const()) // 8, atom_bytes(x) - int(y.const()) // 8)
                        if r is not None:
                            return r
                    return A("%s.%s(%s,%s)" % (op, w, short(str(x)), short(str(y))))
                V[i] = self.flat(app(shift, self.num(self.val(o[0])), self.num(bx)))
        elif op == "sdivexact":
            V[i] = self.uf(op, self.val(o[0]), self.val(o[1]))
        elif op in ("zext", "sext") and ins["ot"] == "i1":
            V[i] = app(lambda x: (ONE if op == "zext" else K(-1)) if x else ZERO, self.as_bool(self.val(o[0])))
        elif op == "uitofp" and ins["ot"] == "i1":
            V[i] = app(lambda x: ONE if x else ZERO, self.as_bool(self.val(o[0])))
        elif op in ("zext", "sext", "trunc", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc"):
            if op == "trunc" and ins["t"] == "i1":
                V[i] = self.as_bool(self.val(o[0]))
            else:
                def cv(x):
                    if x.is_const() and op in ("zext", "sext", "sitofp", "uitofp", "fpext"):
                        return x
                    if self.single and op in ("fpext", "fptrunc"):
                        return x  # single precision instance: rounding is not modelled
                    if op in ("zext", "sext", "trunc") and is_counter(x) and int((ins["t"] if op == "trunc" else ins["ot"])[1:]) >= 32:
                        return x  # loop counters of 32 bits and more are taken not to wrap
                    if op == "zext" and is_atom(x):
                        return x  # the unsigned value of the operand
                    if op == "trunc" and is_atom(x) and atom_bytes(x) and 8 * atom_bytes(x) <= int(ins["t"][1:]):
                        return x
                    if op == "trunc" and int(ins["t"][1:]) % 8 == 0:
                        r = narrow(x, 0, int(ins["t"][1:]) // 8)
                        if r is not None:
                            return r
                    return A("%s.%s.%s(%s)" % (op, ins["ot"], ins["t"], short(str(x))))
                V[i] = app(cv, self.num(self.val(o[0])))
        elif op in ("bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            V[i] = self.val(o[0])
        elif op == "getelementptr":
            v = app(lambda x: padd(x, K(ins.get("off", 0))), self.val(o[0]))
            if "var" not in ins:
                raise Unsupported("gep")
            for vo, sc in ins["var"]:
                v = app(lambda x, y: padd(x, pmul(self.strip_ext(y), K(sc))), v, self.num(self.val(vo)))
            V[i] = v
        elif op == "load":
            V[i] = self.load(st, self.val(o[0]), ins["sz"], ins["t"])
            self.sites.append(("load", self.val(o[0]), cond, ins))
        elif op == "store":
            self.sites.append(("store", self.val(o[1]), cond, ins))
            self.store(st, self.val(o[1]), self.val(o[0]), ins["sz"])
        elif op in ("icmp", "fcmp"):
            V[i] = self.cmp(ins["pred"], self.val(o[0]), self.val(o[1]), ins["ot"])
        elif op == "select":
            V[i] = ite(self.as_bool(self.val(o[0])), self.val(o[1]), self.val(o[2]))
        elif op == "extractvalue":
            idx = tuple(ins["idx"])

            def ex(x):
                if isinstance(x, Agg):
                    for k, v in x.d:
                        if k == idx:
                            return v
                return A("ex%s(%s)" % (idx, x))
            V[i] = self.flat(app(ex, self.val(o[0])))
        elif op == "insertvalue":
            idx = tuple(ins["idx"])

            def inn(x, y):
                d = dict(x.d) if isinstance(x, Agg) else {}
                d[idx] = y
                return Agg(d)
            V[i] = app(inn, self.val(o[0]), self.val(o[1]))
        elif op in ("extractelement", "insertelement") and o[-1]["k"] == "i":
            idx = (int(o[-1]["n"]),)
            if op == "extractelement":
                def exe(x):
                    if isinstance(x, Agg):
                        for k, v in x.d:
                            if k == idx:
                                return v
                    return A("ex%s(%s)" % (idx, x))
                V[i] = self.flat(app(exe, self.val(o[0])))
            else:
                def ine(x, y):
                    d = dict(x.d) if isinstance(x, Agg) else {}
                    d[idx] = y
                    return Agg(d)
                V[i] = app(ine, self.val(o[0]), self.val(o[1]))
        elif op in ("call", "invoke"):
            self.call(st, ins, cond)
        else:
            raise Unsupported("instruction " + op)

    def strip_ext(self, y):
        return y

    def call(self, st, ins, cond):
        name = ins.get("callee")
        args = [self.val(x) for x in ins["o"] if x["k"] != "x"]
        num = set(ins.get("num", ())) if name is not None else set()
        if name is None:
            fp = self.val(ins["calleev"])
            name = "*"
            args = [fp] + args
        dn = without_result(self.rename(self.dem(name)))
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            n = args[2]
            if isinstance(n, Poly) and n.is_const():
                self.sites.append(("memcpy", args[0], cond, ins))
                self.memcpy(st, args[0], args[1], int(n.const()))
                return
            ev = ("memcpy", args[0], args[1], n)
            st.trace = app(lambda t, *a: t + (("memcpy",) + a,), st.trace, *args[:3])
            self.clobber(st)
            return
        if name.startswith("llvm.memset"):
            n = args[2]
            if isinstance(n, Poly) and n.is_const() and isinstance(args[1], Poly) and args[1] == ZERO:
                for k in range(int(n.const())):
                    self.store(st, app(lambda x: padd(x, K(k)), args[0]), ZERO, 1)
                return
            raise Unsupported("memset")
        if name.startswith("llvm."):
            base = name.split(".")[1]
            if base in ("sqrt", "fabs", "pow", "exp", "log", "log2", "log10", "sin", "cos", "floor", "ceil", "abs", "umin", "umax",
                        "smin", "smax", "maxnum", "minnum", "ctpop", "ctlz", "cttz", "exp2", "fshl", "fshr", "bswap"):
                if base in ("umin", "umax", "smin", "smax", "maxnum", "minnum"):
                    def mm(x, y):
                        if base[0] in "us" and not x.is_const() and not y.is_const() and not self.single:
                            less = self.cmp(base[0] + "lt", x, y, ins["t"])
                            return ite(less, x, y) if base[1:] == "min" else ite(less, y, x)
                        r = A("%s(%s)" % (base, ",".join(sorted((str(x), str(y))))))
                        if base == "umax" and ONE in (x, y):
                            self.umax1[str(r)] = y if x == ONE else x
                        return r
                    a = self.flat(app(mm, *args[:2]))
                else:
                    a = self.uf(base, *(args[:1] if base == "abs" else args))
                self.vals[ins["id"]] = a
                return
            if base == "lifetime":
                # outside its lifetime a local object has no contents
                b = self.addr(args[1])[0] if isinstance(args[1], Poly) else None
                if b in self.local:
                    st.mem.pop(b, None)
                    st.ver.pop(b, None)
                return
            if base == "expect":
                self.vals[ins["id"]] = args[0]
                return
            if base in ("fmuladd", "fma"):
                self.vals[ins["id"]] = app(lambda x, y, z: padd(pmul(x, y), z), *args)
                return
            if base in ("trap", "experimental", "stacksave", "stackrestore", "prefetch", "donothing", "is"):
                if base == "is":
                    raise Unsupported(name)
                self.vals[ins["id"]] = A("undef")
                return
            raise Unsupported("intrinsic " + name)
        pure = ins.get("rn") or (ins.get("ro"))
        cargs = [self.canon_arg(st, a) for a in args]
        if pure:
            if dn in ("str_cat(char const*, char const*)", "str_cat", "str_push") and ins.get("rn"):
                v = app(lambda *xs: joined(dn, *xs), *cargs)
            elif ins.get("rn"):
                v = app(lambda *xs: A("%s(%s)" % (dn, ",".join(str(x) for x in xs))), *cargs) if cargs else A(dn + "()")
            else:
                v = app(lambda e, *xs: A("%s(%s)%s" % (dn, ",".join(str(x) for x in xs), "@" + e if e != "0" else "")), st.epoch, *cargs)
            if ins["t"] == "i1":
                v = self.flat(app(lambda x: var(str(x)), v))
            self.vals[ins["id"]] = v
            self.sites.append(("pure", dn, cond, ins))
            return
        if self.cleared(st, dn, args):
            return
        dn, args, cargs = self.scalar_args(st, dn, args, cargs)
        keep = self.event_filter(dn) if self.event_filter else True
        self.sites.append(("call", dn, cond, ins))
        self.calls.append((dn, tuple(cargs), cond))
        label = self.object_label(st, dn, args, cargs, num) if ins.get("am") and keep else None
        if label:
            n, private = label
        heap = dn.startswith("operator new")
        here = "~%d" % self.depth if self.depth else ""
        if heap:
            def nth(t):
                return "%d%s" % (sum(1 for e in t if e[0] == dn), here)
            v = app(lambda t: A("r%s:%s" % (nth(t), dn)), st.trace)
            st.trace = app(lambda t, *xs: t + ((dn,) + xs + (nth(t),),), st.trace, *cargs)
        elif keep and not (label and private):
            st.trace = app(lambda t, *xs: t + text_event(dn, xs), st.trace, *cargs)
        if ins["t"] != "void":
            if heap:
                pass
            elif label:
                v = app(lambda t: A("r%s:%s" % (t, dn)), n)
            else:
                v = app(lambda t: A("r%d%s:%s" % (moment(t), here, dn)), st.trace)
            if not keep:
                v = A("r:%s:%d" % (dn, ins["id"]))
            if ins["t"] == "i1":
                v = self.flat(app(lambda x: var(str(x)), v))
            self.vals[ins["id"]] = v
        if heap:
            return                      # taking memory changes none
        # memory reachable through the arguments is the callee's output
        if dn in ("operator delete(void*, unsigned long)", "operator delete(void*)"):
            if isinstance(args[0], Poly) and not args[0].is_const():
                b = self.addr(args[0])[0]
                if ":operator new" in b and "[" not in b:
                    st.mem.pop(b, None)
            return
        if not label:
            n = app(lambda t: "c%d%s" % (moment(t), here), st.trace)
        roots = set()
        args = [ZERO if i in num else a for i, a in enumerate(args)]      # a number gives no access to memory
        args = self.clobber_object(st, dn, args, n) if ins.get("am") else args
        for a in args:
            for _p, l in leaves(a):
                if isinstance(l, Poly) and not l.is_const():
                    roots.update(self.rootof[self.addr(l)[0]])
        for r in roots:
            if not ins.get("am") and r not in self.local:
                continue
            st.ver[r] = n
            for b in list(st.mem):
                if r in self.rootof.get(b, ()):
                    del st.mem[b]
        if not ins.get("am"):
            self.clobber(st)

    def two_objects(self, d):
        """a difference of two pointers into separate objects, or of one and null"""
        t = [(m, k) for m, k in d.t if m]
        if len(t) == 1 and abs(t[0][1]) == 1 and len(t[0][0]) == 1 and t[0][0][0][1] == 1 and NEW_OBJECT.match(t[0][0][0][0]):
            return True
        if len(t) == 2 and len(d.t) == 2 and sorted(k for _m, k in t) == [-1, 1] and all(len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "@" for m, _k in t):
            return True
        a = sorted((k, m[0][0]) for m, k in d.t if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.apart)
        return [k for k, _n in a] == [-1, 1] and len([m for m, _k in d.t if m]) == 2

    def object_label(self, st, dn, args, cargs, num):
        """the new state of a standard container is a function of its old state,
        the operation and the arguments, whatever happened to other objects in
        between; it is no event of its own unless it changes an argument, too"""
        q = member_of(dn)
        if q is None or len(args) != len(q[1]) + 1:
            return None
        for _p, l in leaves(args[0]):
            if not isinstance(l, Poly) or _p:
                return None
        b, off = self.addr(args[0])
        m = st.mem.get(b, {})
        old = [m[k] if k in m else self.default(st, b, k) for k in range(off, off + q[0])]
        n = app(lambda *xs: "h" + digest(repr(xs), None, True), dn, *(list(cargs) + old))
        private = True
        for i, a in enumerate(args[1:]):
            if i + 1 in num or q[1][i].endswith("const&"):
                continue
            for _p, l in leaves(a):
                if isinstance(l, Poly) and not l.is_const() and self.addr(l)[0] not in self.local and not self.of_local(self.addr(l)[0]):
                    private = False
        return n, private

    def cleared(self, st, dn, args):
        """a cleared set or map of this function's own is as newly constructed"""
        if not re.match(r"std::(map|set|multimap|multiset)<.*>::(clear|map|set|multimap|multiset)\(\)$", dn) or not isinstance(args[0], Poly):
            return False
        b, off = self.addr(args[0])
        if b not in self.local:
            return False
        for k in [*range(8), *range(12, 16)]:
            st.mem.get(b, {}).pop(off + k, None)
        for o, v, n in ((8, ZERO, 4), (16, ZERO, 8), (24, padd(args[0], K(8)), 8), (32, padd(args[0], K(8)), 8), (40, ZERO, 8)):
            self.store(st, padd(args[0], K(o)), v, n)
        return True

    def of_local(self, b):
        """a pointer obtained from one of this function's own objects"""
        return b.startswith("rh") or any(l in b for l in self.local)

    def scalar_args(self, st, dn, args, cargs):
        """a number handed to a container by reference is that number"""
        q = member_of(dn)
        if q is None or len(args) != len(q[1]) + 1:
            return dn, args, cargs
        out = list(cargs)
        for i, t in enumerate(q[1]):
            m = re.match(r"([a-z][a-z ]*?)( const)? ?&&?$", t)
            if m and m.group(1) in BUILTIN:
                w, k = BUILTIN[m.group(1)]
                out[i + 1] = self.load(st, args[i + 1], w, k)
        e = re.match(r"(.*std::(map|set)<.*>)::(insert|emplace|try_emplace)(<.*>)?\((.*)\)$", dn)
        if e and len(args) == len(q[1]) + 1:
            # inserting a number (or a pair of numbers), however it is handed over
            t = re.match(r"(?:std::pair<([a-z ]+?)(?: const)?, ([a-z ]+?)>)(?: const)?&&?$", e.group(5))
            c = e.group(1) + "::insert(%s)"
            if t and t.group(1) in BUILTIN and t.group(2) in BUILTIN:
                (w1, k1), (w2, k2) = BUILTIN[t.group(1)], BUILTIN[t.group(2)]
                o2 = -(-w1 // w2) * w2
                second = app(lambda x: padd(x, K(o2)), args[1])
                return c % ("%s const&, %s const&" % t.groups()), [args[0], args[1], second], [out[0], self.load(st, args[1], w1, k1), self.load(st, second, w2, k2)]
            m = [re.match(r"([a-z][a-z ]*?)( const)? ?&&?$", x) for x in q[1]]
            if all(x and x.group(1) in BUILTIN for x in m) and len(m) == (2 if e.group(2) == "map" else 1):
                return c % ", ".join(x.group(1) + " const&" for x in m), args, out
        e = re.match(r"(.*)::emplace_back<([a-z ]+?)( const)? ?&?&?>\(.*\)$", dn)
        if e and e.group(2) in BUILTIN:
            dn = "%s::push_back(%s const&)" % e.group(1, 2)
        e = re.match(r"(.*)::push_back\(([a-z ]+)&&\)$", dn)
        if e:
            dn = "%s::push_back(%s const&)" % e.group(1, 2)
        return dn, args, out

    def clobber_object(self, st, dn, args, n):
        """a member of a standard container changes its own object and what it
        takes by non-const reference; returns the arguments not accounted for"""
        q = member_of(dn)
        if q is None:
            return args
        size, params, const = q
        if len(args) != len(params) + 1:
            return args
        for _p, l in leaves(args[0]):
            if not isinstance(l, Poly) or _p:
                return args
        if not const:
            b, off = self.addr(args[0])
            m = st.mem.setdefault(b, {})
            for k in range(off, off + size):
                self.objbytes.add((b, k))
                m[k] = app(lambda e, v: ("mem", e + "|" + v, b, k), st.epoch, n)
        return [a for a, t in zip(args[1:], params) if not t.endswith("const&")]

    def canon_arg(self, st, a):
        def one(x):
            if isinstance(x, bool):
                return ONE if x else ZERO
            if isinstance(x, Poly) and not x.is_const():
                b, off = self.addr(x) if x.split_const()[1].denominator == 1 else (None, 0)
                if b in self.local:
                    m = st.mem.get(b, {})
                    if m:
                        hs = [(h, st.mem[h]) for h in sorted(st.mem) if h not in self.local and b in h]

                        def text(m, hs):
                            return A("&local+%d{%s%s}" % (off, self.compact(m), "".join(";%s{%s}" % (h, self.compact(c)) for h, c in hs)))
                        # what the object holds is decided first: the text is one per case
                        cells = [(c, k) for c in [m] + [c for _h, c in hs] for k in c if isinstance(c[k], Node)]
                        vs = set()
                        for c, k in cells:
                            vs |= support(c[k])
                            if len(vs) > 4:
                                break
                        if not vs or len(vs) > 4:
                            return text(m, hs)

                        def case(*toks):
                            new = {}
                            for (c, k), t in zip(cells, toks):
                                new.setdefault(id(c), dict(c))[k] = t
                            return text(new.get(id(m), m), [(h, new.get(id(c), c)) for h, c in hs])
                        return app(case, *[c[k] for c, k in cells])
                    return A("&local+%d" % off)
                if b and b.startswith("@"):
                    g = self.mod["globals"].get(b[1:])
                    if g and g.get("const") and "init" in g and g["init"]["k"] == "str" and 0 <= off < len(g["init"]["b"]):
                        bs = bytes(g["init"]["b"][off:])
                        return A("&bytes:" + repr(bs))
                    if g and g.get("const") and g.get("init") == {"k": "zero", "t": "[1 x i8]"}:
                        return A("&bytes:" + repr(b"\0"))
            return x
        r = app(one, a)
        return self.flat(r)

    def compact(self, m):
        ks = sorted(m)
        out, i = [], 0
        while i < len(ks):
            t = m[ks[i]]
            if not isinstance(t, Node) and t[0] == "byte" and t[2] == 0:
                n = t[3]
                out.append("%d:%s" % (ks[i], t[1]))
                i += n
            else:
                out.append("%d:%r" % (ks[i], t))
                i += 1
        return ";".join(out)


BUILTIN = {"unsigned long": (8, "i64"), "long": (8, "i64"), "unsigned int": (4, "i32"), "int": (4, "i32"), "unsigned short": (2, "i16"),
           "unsigned char": (1, "i8"), "char": (1, "i8"), "double": (8, "double"), "float": (4, "float"), "short": (2, "i16")}
SIZES = {"vector": 24, "__cxx11::basic_string": 32, "map": 48, "set": 48, "multimap": 48, "multiset": 48, "__cxx11::list": 24,
         "unordered_map": 56, "unordered_set": 56, "deque": 80}


TEXTS = {}


def joined(dn, x, y):
    """a text put together from parts, in whatever order they were joined"""
    def parts(t):
        if str(t).startswith("&bytes:"):
            b = eval(str(t)[7:]).split(b"\0")[0]
            return (b,) if b else ()
        return TEXTS.get(str(t), (t,))
    if dn == "str_push":
        ps = parts(x) + ((bytes([int(y.const())]),) if y.is_const() and 0 < y.const() < 256 else (A("str_fill(1,%s)" % y),))
    else:
        ps = parts(x) + parts(y)
    out = []
    for p in ps:
        if isinstance(p, bytes) and out and isinstance(out[-1], bytes):
            out[-1] += p
        else:
            out.append(p)
    if not out:
        return A("&bytes:" + repr(b"\0"))
    show = [A("&bytes:" + repr(p + b"\0")) if isinstance(p, bytes) else p for p in out]
    r = show[0]
    for p in show[1:]:
        r = A("str_cat(%s,%s)" % (r, p))
    if len(out) > 1:
        TEXTS[str(r)] = tuple(out)
    return r


@functools.lru_cache(None)
def text_event(dn, xs):
    """a literal text is written character by character, however it is cut"""
    if dn in ("ms_str", "ms_quoted") and isinstance(xs[1], Poly) and str(xs[1]).startswith("&bytes:"):
        b = eval(str(xs[1])[7:]).split(b"\0")[0]
        if dn == "ms_quoted":
            b = b.replace(b"\\", b"\\\\").replace(b'"', b'\\"')
        if len(b) < 400:
            return tuple(("ms_char", xs[0], K(c)) for c in b)
    return ((dn,) + xs,)


NEW_OBJECT = re.compile(r"r\d+:operator new(\[\])?\(unsigned long(, std::align_val_t)?\)$")
HEAP = ("operator new", "operator delete")


def moment(t):
    """the number of effects so far; taking and releasing memory is none"""
    return sum(1 for e in t if not str(e[0]).startswith(HEAP))


def settle(t):
    """memory taken and released in between leaves no trace"""
    if NOHEAP:
        return tuple(e for e in t if not str(e[0]).startswith(("operator new", "operator delete")))
    if not any(str(e[0]).startswith("operator delete") for e in t):
        return t
    out = []
    for e in t:
        if str(e[0]).startswith("operator delete"):
            if e[1] == ZERO:
                continue
            new = [k for k, x in enumerate(out) if str(x[0]).startswith("operator new") and str(e[1]) == "r%s:%s" % (x[-1], x[0])]
            if new:
                del out[new[0]]
                continue
        out.append(e)
    return tuple(out)


def without_result(dn):
    """the result type of a template function is a function of the rest of its name"""
    d, cut = 0, -1
    t = dn.replace("operator<<", "operator@@").replace("operator>>", "operator@@").replace("operator->", "operator@@").replace("operator<", "operator@").replace("operator>", "operator@").replace("(anonymous namespace)", "@anonymous@namespace@").replace("operator()", "operator@@")
    for i, c in enumerate(t):
        if c in "<([{":
            if c == "(" and d == 0:
                break
            d += 1
        elif c in ">)]}":
            d -= 1
        elif c == " " and d == 0:
            if t[:i].endswith("@"):
                continue
            if t[:i].endswith("operator"):
                return dn
            cut = i
    return dn[cut + 1:]


def member_of(dn):
    """(object size, parameter types, const) of a standard container's member"""
    m = re.match(r"std::((?:__cxx11::)?[a-z_]+)<", dn)
    if not m or m.group(1) not in SIZES or "<bool," in dn[:40]:
        return None
    i, d = m.end(), 1
    while i < len(dn) and d:
        d += dn[i] == "<"
        d -= dn[i] == ">"
        i += 1
    if not dn.startswith("::", i):
        return None
    const = dn.endswith(" const")
    body = dn[:-6] if const else dn
    if not body.endswith(")"):
        return None
    d, j, cuts = 0, len(body) - 1, [len(body) - 1]
    while j >= i:
        c = body[j]
        if c in ")>]}":
            d += 1
        elif c in "(<[{":
            d -= 1
            if d == 0:
                break
        elif c == "," and d == 1:
            cuts.append(j)
        j -= 1
    cuts.append(j)
    cuts.reverse()
    ps = [body[a + 1:b].strip() for a, b in zip(cuts, cuts[1:])]
    return SIZES[m.group(1)], [x for x in ps if x], const


def describe_mem(mem, names=None):
    """human readable final memory"""
    out = []
    for b in sorted(mem):
        m = mem[b]
        ks = sorted(m)
        i = 0
        while i < len(ks):
            t = m[ks[i]]
            if not isinstance(t, Node) and t[0] == "byte" and t[2] == 0 and all(
                    ks[i] + k in m and m[ks[i] + k] == ("byte", t[1], k, t[3]) for k in range(t[3])):
                out.append("[%s+%d] = %s" % (b, ks[i], t[1]))
                i += t[3]
            elif not isinstance(t, Node) and t[0] == "mem":
                j = i
                while j + 1 < len(ks) and ks[j + 1] == ks[j] + 1 and m[ks[j + 1]] == ("mem", t[1], t[2], t[3] + (j + 1 - i)):
                    j += 1
                out.append("[%s+%d..%d] = mem%s[%s+%d..]" % (b, ks[i], ks[j], t[1], t[2], t[3]))
                i = j + 1
            else:
                out.append("[%s+%d] = %r" % (b, ks[i], t))
                i += 1
                # skip the remaining bytes of a conditional store
                while i < len(ks) and isinstance(m[ks[i]], Node) and isinstance(t, Node) and ks[i] % 8 != ks[i - 1] - ks[i - 1] % 8 + 8 and (ks[i] - ks[i-1]) == 1 and ks[i] % 8:
                    i += 1
    return out


EQ0 = re.compile(r"eq0\((.*)\)$")


def exclusive(vs):
    """{atom: atoms before it that cannot hold together with it}: x == A and
    x == B for different numbers or objects A and B"""
    groups = {}
    for v in vs:
        m = EQ0.match(v)
        if not m:
            continue
        t = m.group(1)
        t = t[1:-1] if t[0] == "(" and t[-1] == ")" else t
        parts = t.split(" + ")
        if any(x.count("(") != x.count(")") or x.count("[") != x.count("]") for x in parts):
            continue
        fixed = tuple(x for x in parts if re.match(r"-?\d+$|(-1\*)?@[\w.$]+$", x))
        rest = tuple(x for x in parts if x not in fixed)
        if rest and len(fixed) <= 2:
            groups.setdefault(rest, []).append((v, fixed))
    out = {}
    for g in groups.values():
        num = [v for v, f in g if not any("@" in x for x in f)]
        sym = [(v, f) for v, f in g if any("@" in x for x in f)]
        for k in (sorted(num), sorted(v for v, f in sym if [x for x in f if "@" not in x] == [x for x in sym[0][1] if "@" not in x])):
            for i, v in enumerate(k):
                if i:
                    out[v] = k[:i]
    return out


def first_of(x, ex):
    """the decision diagram x where of atoms that exclude one another only the first counts"""
    memo = {}

    def go(x):
        if not isinstance(x, Node):
            return x
        if x not in memo:
            c = var(x.v)
            for e in ex.get(x.v, ()):
                c = b_and(c, b_not(var(e)))
            memo[x] = ite(c, go(x.hi), go(x.lo))
        return memo[x]
    return go(x)


def compare(s1, s2):
    """differences between two summaries (list of strings), empty if equal"""
    diff = compare_plain(s1, s2)
    if not diff:
        return diff
    ds = [x for s in (s1, s2) for x in [s.outcome, s.trace] + [t for m in s.mem.values() for t in m.values()]]
    vs = set()
    for x in ds:
        vs |= support(x)
    ex = exclusive(vs)
    if not ex:
        return diff
    for s in (s1, s2):
        s.outcome, s.trace = first_of(s.outcome, ex), first_of(s.trace, ex)
        s.mem = {b: {o: first_of(t, ex) for o, t in m.items()} for b, m in s.mem.items()}
    return compare_plain(s1, s2)


def compare_plain(s1, s2):
    diff = []
    if s1.outcome != s2.outcome:
        diff.append("result: got %r, expected %r" % (s1.outcome, s2.outcome))
    for b in sorted(set(s1.mem) | set(s2.mem)):
        m1, m2 = s1.mem.get(b, {}), s2.mem.get(b, {})
        bad = [o for o in sorted(set(m1) | set(m2)) if m1.get(o) != m2.get(o)]
        if bad:
            diff.append("memory %s+%d: got %s, expected %s" % (
                b, bad[0], "; ".join(describe_mem({b: {o: m1[o] for o in bad if o in m1}})) or "unchanged",
                "; ".join(describe_mem({b: {o: m2[o] for o in bad if o in m2}})) or "unchanged"))
    if s1.trace != s2.trace:
        diff.append("effects: got %r, expected %r" % (s1.trace, s2.trace))
    return diff


def expand(s, depth=3):
    for _ in range(depth):
        t = re.sub(r"#[0-9a-f]{20}", lambda m: "{" + FULL[m.group(0)] + "}" if m.group(0) in FULL and len(FULL[m.group(0)]) < 4000 else m.group(0), s)
        if t == s:
            break
        s = t
    return s


def explain(s1, s2):
    """what differs, with loop bodies spelled out"""
    out = []
    l1 = {k: v for k, v in s1.loops.items() if k not in s2.loops}
    l2 = {k: v for k, v in s2.loops.items() if k not in s1.loops}
    e2 = list(l2.values())
    for (k, v) in l1.items():
        best = None
        for w in e2:
            same = sum(1 for f in ("exits", "writes", "trace") if v[f] == w[f]) + 0.5 * (len(set(map(str, v["writes"])) & set(map(str, w["writes"]))) > 0)
            if best is None or same > best[0]:
                best = (same, w)
        if best is None:
            out.append("loop at %s has no counterpart in the reference" % v["line"])
            continue
        w = best[1]
        for f in ("exits", "writes", "trace"):
            if v[f] != w[f]:
                a, b = v[f], w[f]
                if isinstance(a, list):
                    x = [i for i in a if i not in b]
                    y = [i for i in b if i not in a]
                    if f == "writes":
                        x = [i for i in x if "'byte'" not in i[2] or ", 0, " in i[2]]
                        y = [i for i in y if "'byte'" not in i[2] or ", 0, " in i[2]]
                    a, b = x[:2], y[:2]
                out.append("loop at %s, %s: got %s, expected %s" % (v["line"], f, expand(str(a), 1)[:700], expand(str(b), 1)[:700]))
    return out
