#!/usr/bin/env python3
"""writes witness/position.cpp: every short history of operations on a serializer"""
import itertools, os
OPS = "WRCZLKMmANanS"
out = ['''//@ preamble
// written by tools/gen_position.py
#include "model_vector.h"
#include <GTMesh/Debug/Debug.h>
#define MF_NO_FAILURE true
#include "model_file.h"
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#define EX extern "C"
EX void seen(size_t);
struct Chunk { size_t k; };
struct Probe { const unsigned char* at; size_t k; };
inline void BinarySerialize(BinarySerializer::ByteContainer& c, const Chunk& x) { c.extend(x.k); }
inline void BinaryDeserialize(BinarySerializer::ByteContainerIterator& it, Probe& x) { x.at = &*it; it += x.k; }
// the reference: the bytes and the number of bytes already read
struct Ref {
    std::vector<unsigned char> d;
    size_t p = 0;
    Ref() = default;
    Ref(const Ref&) = default;
    Ref& operator=(const Ref&) = default;
    Ref(Ref&& o) noexcept : d(std::move(o.d)), p(o.p) { o.p = 0; }
    Ref& operator=(Ref&& o) noexcept { d = std::move(o.d); p = o.p; o.p = 0; return *this; }
    const std::vector<unsigned char>& getData() { return d; }
    void write(const Chunk& x) { d.extend(x.k); }
    void read(Probe& x) { if (p >= d.size()) p = 0; x.at = d.data() + p; p += x.k; }
    void clear() { d.clear(); p = 0; }
    void resetIterator() { p = 0; }
    void loadFromFile(const std::string& n) {
        std::ifstream f(n, std::ios_base::binary);
        if (!f) throw 0;
        long k = (f.seekg(0, std::ios_base::end), f.tellg());
        f.seekg(0, std::ios_base::beg);
        d.resize(k);
        f.read((char*)d.data(), k);
        if (!f) throw 0;
        p = 0;
    }
    void saveToFile(const std::string& n) {
        std::ofstream f(n, std::ios_base::binary);
        if (!f) throw 0;
        f.write((const char*)d.data(), d.size());
        f.close();
        if (!f) throw 0;
    }
};
struct Env { size_t k[8]; const std::string& n; };
template <class S, char... Ops> struct Run;
template <class S> struct Run<S> { static void go(S&, const Env&, int) {} };
#define OP(C, ...) template <class S, char... O> struct Run<S, C, O...> { static void go(S& s, const Env& e, int i) { (void)e; using Next = Run<S, O...>; __VA_ARGS__ } };
OP('W', s.write(Chunk{e.k[i]}); Next::go(s, e, i + 1);)
OP('R', { Probe p{nullptr, e.k[i]}; s.read(p); seen(p.at - s.getData().data()); } Next::go(s, e, i + 1);)
OP('C', s.clear(); Next::go(s, e, i);)
OP('Z', s.resetIterator(); Next::go(s, e, i);)
OP('L', s.loadFromFile(e.n); Next::go(s, e, i);)
OP('S', s.saveToFile(e.n); Next::go(s, e, i);)
OP('K', S t(s); Next::go(t, e, i);)
OP('M', S t(std::move(s)); Next::go(t, e, i);)
OP('m', S t(std::move(s)); Next::go(s, e, i); (void)t;)
OP('A', S t; t.write(Chunk{e.k[i]}); t = s; Next::go(t, e, i + 1);)
OP('N', S t; t.write(Chunk{e.k[i]}); t = std::move(s); Next::go(t, e, i + 1);)
OP('a', S t; t.write(Chunk{e.k[i]}); { Probe p{nullptr, e.k[i + 1]}; t.read(p); } s = t; Next::go(s, e, i + 2);)
OP('n', S t; t = std::move(s); Next::go(s, e, i);)
''']


def section(name, words, opts=""):
    out.append("//@ section %s std=string argmem=@(seen|mv_.*|mf_(opens|read|write|close))$ pure=@mf_(id|size)$%s\n" % (name, opts))
    for w in words:
        for side, cls in (("impl", "BinarySerializer"), ("spec", "Ref")):
            out.append("EX void w_%s_%s(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { %s s; Run<%s, %s>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }\n"
                       % (side, w, cls, cls, ", ".join("'%s'" % x for x in w)))


def words(n, pre="", post=""):
    return [pre + "".join(x) + post for x in itertools.product(OPS, repeat=n)]


fresh = [w for k in (1, 2) for w in words(k, "", "R")]
section("fresh", fresh)
# from the general state: some bytes written, some of them read
section("used", [w for k in (1, 2) for w in words(k, "WR", "R")])
section("used_rewritten", words(1, "WR", "WR") + words(1, "WR", "RWR"))
for a in OPS:
    section("used_after_%s" % {"W": "write", "R": "read", "C": "clear", "Z": "reset", "L": "load", "K": "copy", "M": "move", "m": "being_moved", "A": "copy_assign", "N": "move_assign", "a": "overwrite", "n": "being_move_assigned", "S": "save"}[a],
            words(2, "WR" + a, "R"), " thorough")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "witness", "position.cpp"), "w").write("".join(out))
